From 699182184e729078447d0d2726b565723009e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 01/76] fix: integer and complex arithmetic must wrap on
 overflow instead of panicking

---
 cordy-sys/src/core/collections.rs |  2 +-
 cordy-sys/src/core/math.rs        |  8 +++-
 cordy-sys/src/vm/operator.rs      | 70 ++++++++++++++++++++++++-------
 3 files changed, 61 insertions(+), 19 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 550fecf..0a18931 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -151,7 +151,7 @@ fn rev_range(start_high_inclusive: i64, stop_low_exclusive: i64, step_size: i64)
 pub fn sum(args: impl Iterator<Item=ValuePtr>) -> ValueResult {
     let mut sum: i64 = 0;
     for v in args {
-        sum += v.as_int_checked()?;
+        sum = sum.wrapping_add(v.as_int_checked()?);
     }
     sum.to_value().ok()
 }
diff --git a/cordy-sys/src/core/math.rs b/cordy-sys/src/core/math.rs
index 78fd6da..67222a3 100644
--- a/cordy-sys/src/core/math.rs
+++ b/cordy-sys/src/core/math.rs
@@ -62,7 +62,7 @@ pub fn abs(value: ValuePtr) -> ValueResult {
         Type::Bool | Type::Int => value.as_int().abs().to_value().ok(),
         Type::Complex => {
             let c = value.as_complex();
-            ComplexType::new(c.re.abs(), c.im.abs()).to_value().ok()
+            ComplexType::new(c.re.wrapping_abs(), c.im.wrapping_abs()).to_value().ok()
         },
         #[cfg(feature = "rational")]
         Type::Rational => value.as_rational().clone().abs().to_value().ok(),
@@ -115,7 +115,11 @@ pub fn lcm(mut args: impl Iterator<Item=ValuePtr>) -> ValueResult {
     };
 
     for arg in args {
-        acc = num_integer::lcm(acc, arg.as_int_checked()?);
+        let arg = arg.as_int_checked()?;
+        acc = match num_integer::gcd(acc, arg) {
+            0 => 0,
+            gcd => acc.wrapping_mul(arg / gcd).wrapping_abs()
+        };
     }
 
     acc.to_value().ok()
diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 178ab1b..ee213f4 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -114,7 +114,7 @@ impl From<BinaryOp> for CompareOp {
 pub fn unary_sub(a1: ValuePtr) -> ValueResult {
     match a1.ty() {
         Bool | Int => (-a1.as_int()).to_value().ok(),
-        Complex => (-a1.as_complex()).to_value().ok(),
+        Complex => c64_wrapping_neg(*a1.as_complex()).to_value().ok(),
         #[cfg(feature = "rational")]
         Rational => (-a1.as_rational().clone()).to_value().ok(),
         Vector => apply_vector_unary(a1, unary_sub),
@@ -126,7 +126,7 @@ pub fn unary_not(a1: ValuePtr) -> ValueResult {
     match a1.ty() {
         Bool => (!a1.as_bool()).to_value().ok(),
         Int => (!a1.as_int()).to_value().ok(),
-        Complex => a1.as_complex().conj().to_value().ok(),
+        Complex => ComplexType::new(a1.as_complex().re, a1.as_complex().im.wrapping_neg()).to_value().ok(),
         Vector => apply_vector_unary(a1, unary_not),
         _ => TypeErrorUnaryOp(UnaryOp::Not, a1).err(),
     }
@@ -139,8 +139,8 @@ pub fn unary_logical_not(a1: ValuePtr) -> ValueResult {
 
 pub fn binary_mul(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     match (lhs.ty(), rhs.ty()) {
-        (Bool | Int, Bool | Int) => (lhs.as_int() * rhs.as_int()).to_value().ok(),
-        (Bool | Int | Complex, Bool | Int | Complex) => (lhs.to_complex() * rhs.to_complex()).to_value().ok(),
+        (Bool | Int, Bool | Int) => lhs.as_int().wrapping_mul(rhs.as_int()).to_value().ok(),
+        (Bool | Int | Complex, Bool | Int | Complex) => c64_wrapping_mul(lhs.to_complex(), rhs.to_complex()).to_value().ok(),
         #[cfg(feature = "rational")]
         (Bool | Int | Rational, Bool | Int | Rational) => (lhs.to_rational() * rhs.to_rational()).to_value().ok(),
         (ShortStr | LongStr, Int) => binary_str_repeat(lhs, rhs),
@@ -191,7 +191,7 @@ pub fn binary_div(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         },
         (Bool | Int | Complex, Bool | Int | Complex) => {
             let rhs = rhs.to_complex();
-            match rhs.norm_sqr() == 0 {
+            match rhs.re == 0 && rhs.im == 0 {
                 true => ValueErrorDivideByZero.err(),
                 false => c64_div_floor(lhs.to_complex(), rhs).to_value().ok()
             }
@@ -215,10 +215,44 @@ pub fn binary_div(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 /// This is a clone of that but using `floor_div` provided by `num-integer`, which keeps consistency with how we define division for `complex / int`
 #[inline]
 fn c64_div_floor(lhs: ComplexType, rhs: ComplexType) -> ComplexType {
-    let norm_sqr = rhs.norm_sqr();
-    let re = lhs.re * rhs.re + lhs.im * rhs.im;
-    let im = lhs.im * rhs.re - lhs.re * rhs.im;
-    ComplexType::new(num_integer::div_floor(re, norm_sqr), num_integer::div_floor(im, norm_sqr))
+    // Intermediate products may exceed 64 bits, even when the quotient does not
+    let (lhs_re, lhs_im, rhs_re, rhs_im) = (lhs.re as i128, lhs.im as i128, rhs.re as i128, rhs.im as i128);
+    let norm_sqr = (rhs_re * rhs_re).wrapping_add(rhs_im * rhs_im);
+    let re = (lhs_re * rhs_re).wrapping_add(lhs_im * rhs_im);
+    let im = lhs_im * rhs_re - lhs_re * rhs_im;
+    ComplexType::new(num_integer::div_floor(re, norm_sqr) as i64, num_integer::div_floor(im, norm_sqr) as i64)
+}
+
+/// Arithmetic on `int` and `complex` wraps on overflow. The operators provided by `num-complex` do not, and so cannot be used here.
+#[inline]
+fn c64_wrapping_neg(value: ComplexType) -> ComplexType {
+    ComplexType::new(value.re.wrapping_neg(), value.im.wrapping_neg())
+}
+
+#[inline]
+fn c64_wrapping_add(lhs: ComplexType, rhs: ComplexType) -> ComplexType {
+    ComplexType::new(lhs.re.wrapping_add(rhs.re), lhs.im.wrapping_add(rhs.im))
+}
+
+#[inline]
+fn c64_wrapping_mul(lhs: ComplexType, rhs: ComplexType) -> ComplexType {
+    ComplexType::new(
+        lhs.re.wrapping_mul(rhs.re).wrapping_sub(lhs.im.wrapping_mul(rhs.im)),
+        lhs.re.wrapping_mul(rhs.im).wrapping_add(lhs.im.wrapping_mul(rhs.re))
+    )
+}
+
+/// Exponentiation by squaring, for any non-negative exponent, given a (wrapping) multiplication
+fn wrapping_pow<T: Copy>(mut base: T, mut exponent: i64, one: T, mul: fn(T, T) -> T) -> T {
+    let mut result = one;
+    while exponent > 0 {
+        if exponent & 1 == 1 {
+            result = mul(result, base);
+        }
+        base = mul(base, base);
+        exponent >>= 1;
+    }
+    result
 }
 
 pub fn binary_mod(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
@@ -236,7 +270,8 @@ pub fn binary_mod(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
                 true => ValueErrorModuloByZero.err(),
                 false => {
                     let lhs = lhs.as_complex();
-                    ComplexType::new(num_integer::mod_floor(lhs.re, rhs), num_integer::mod_floor(lhs.im, rhs)).to_value().ok()
+                    let rhs = rhs as i128;
+                    ComplexType::new(num_integer::mod_floor(lhs.re as i128, rhs) as i64, num_integer::mod_floor(lhs.im as i128, rhs) as i64).to_value().ok()
                 }
             }
         }
@@ -253,14 +288,14 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Bool | Int, Bool | Int) => {
             let rhs = rhs.as_int();
             match rhs >= 0 {
-                true => lhs.as_int().pow(rhs as u32).to_value().ok(),
+                true => wrapping_pow(lhs.as_int(), rhs, 1, i64::wrapping_mul).to_value().ok(),
                 false => ValueErrorPowerByNegative(rhs).err()
             }
         },
         (Complex, Bool | Int) => {
             let rhs = rhs.as_int();
             match rhs >= 0 {
-                true => lhs.as_complex().powu(rhs as u32).to_value().ok(),
+                true => wrapping_pow(*lhs.as_complex(), rhs, ComplexType::new(1, 0), c64_wrapping_mul).to_value().ok(),
                 false => ValueErrorPowerByNegative(rhs).err()
             }
         },
@@ -323,7 +358,7 @@ pub fn binary_in(lhs: ValuePtr, rhs: ValuePtr, invert: bool) -> ValueResult {
 pub fn binary_add(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     match (lhs.ty(), rhs.ty()) {
         (Bool | Int, Bool | Int) => (lhs.as_int() + rhs.as_int()).to_value().ok(),
-        (Bool | Int | Complex, Bool | Int | Complex) => (lhs.to_complex() + rhs.to_complex()).to_value().ok(),
+        (Bool | Int | Complex, Bool | Int | Complex) => c64_wrapping_add(lhs.to_complex(), rhs.to_complex()).to_value().ok(),
         #[cfg(feature = "rational")]
         (Bool | Int | Rational, Bool | Int | Rational) => (lhs.to_rational() + rhs.to_rational()).to_value().ok(),
         (List, List) => {
@@ -346,7 +381,7 @@ pub fn binary_add(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 pub fn binary_sub(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     match (lhs.ty(), rhs.ty()) {
         (Bool | Int, Bool | Int) => (lhs.as_int() - rhs.as_int()).to_value().ok(),
-        (Bool | Int | Complex, Bool | Int | Complex) => (lhs.to_complex() - rhs.to_complex()).to_value().ok(),
+        (Bool | Int | Complex, Bool | Int | Complex) => c64_wrapping_add(lhs.to_complex(), c64_wrapping_neg(rhs.to_complex())).to_value().ok(),
         #[cfg(feature = "rational")]
         (Bool | Int | Rational, Bool | Int | Rational) => (lhs.to_rational() - rhs.to_rational()).to_value().ok(),
         (Set, Set) => {
@@ -386,10 +421,13 @@ pub fn binary_right_shift(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 /// Performs a binary shift either left or right, based on the sign of `rhs`. Positive values shift left, negative values shift right.
 #[inline]
 fn i64_left_shift(lhs: i64, rhs: i64) -> i64 {
-    if rhs >= 0 {
+    // Shifting by more than the width of the type is not defined for native shift operators
+    if rhs >= i64::BITS as i64 {
+        0
+    } else if rhs >= 0 {
         lhs << rhs
     } else {
-        lhs >> (-rhs)
+        lhs >> (-rhs).min(i64::BITS as i64 - 1)
     }
 }
 
-- 
2.43.0


From 8c274fded9970202cf450900290b6958212fca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 02/76] fix: a do block directly after an expression statement
 must not pop inside the loop

---
 cordy-sys/src/compiler/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 11317af..519f9e9 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -822,6 +822,7 @@ impl Parser<'_> {
 
     /// Parses a `do { }`, which is a syntax for a scoped block, and optionally a `while` at the end
     fn parse_do_while_statement(&mut self) {
+        self.push_delayed_pop();
         self.advance(); // Consume `do`
 
         let jump = self.begin_loop();
-- 
2.43.0


From d6da8bc96b8091d2387e4581d3599debea6c1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 03/76] fix: continue in a for loop must lift captured loop
 variables

---
 cordy-sys/src/compiler/parser/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 519f9e9..4153ad1 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -950,8 +950,11 @@ impl Parser<'_> {
         match self.current_locals_mut().top_loop() {
             Some(loop_stmt) => {
                 let jump = loop_stmt.start_id;
-                let depth: u32 = loop_stmt.inner_scope();
-                self.pop_locals(Some(depth), false, true, true);
+                let inner_depth: u32 = loop_stmt.inner_scope();
+                let enclosing_depth: u32 = loop_stmt.enclosing_scope();
+                // The variables of a `for` loop stay on the stack, but they are still unique to each iteration, so they need to be lifted
+                self.pop_locals(Some(enclosing_depth), false, false, true);
+                self.pop_locals(Some(inner_depth), false, true, false);
                 self.join_reverse(jump, BranchType::Jump);
             },
             None => self.semantic_error(ContinueOutsideOfLoop),
-- 
2.43.0


From 629367abccd5681c97cd533ee66ccbe26654accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 04/76] fix: break and continue in the else block of a loop
 must not refer to that loop

---
 cordy-sys/src/compiler/parser/mod.rs      | 15 +++++++++++----
 cordy-sys/src/compiler/parser/semantic.rs | 12 +++++++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 4153ad1..c6d660f 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -811,13 +811,15 @@ impl Parser<'_> {
         self.join_reverse(jump, BranchType::Jump);
         self.join_forward(branch, BranchType::JumpIfFalsePop); // Fix the initial conditional jump
 
+        let break_ids = self.end_loop(); // The `else` block is not part of the loop
+
         if let Some(KeywordElse) = self.peek() { // Parse `while {} else {}`
             self.advance();
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.join_breaks(break_ids);
     }
 
     /// Parses a `do { }`, which is a syntax for a scoped block, and optionally a `while` at the end
@@ -836,13 +838,15 @@ impl Parser<'_> {
             self.join_reverse(jump, BranchType::JumpIfTruePop); // Jump back to origin
         }
 
+        let break_ids = self.end_loop(); // The `else` block is not part of the loop
+
         if let Some(KeywordElse) = self.peek() { // Parse do { } while <expr> else { }
             self.advance(); // Consume `else`
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.join_breaks(break_ids);
     }
 
     fn parse_loop_statement(&mut self) {
@@ -865,7 +869,8 @@ impl Parser<'_> {
         self.push_delayed_pop(); // Loops can't return a value
         self.join_reverse(jump, BranchType::Jump);
 
-        self.end_loop();
+        let break_ids = self.end_loop();
+        self.join_breaks(break_ids);
     }
 
     fn parse_for_statement(&mut self) {
@@ -919,13 +924,15 @@ impl Parser<'_> {
         self.pop_locals(Some(self.scope_depth), true, true, false);
         self.scope_depth -= 1;
 
+        let break_ids = self.end_loop(); // The `else` block is not part of the loop
+
         if let Some(KeywordElse) = self.peek() { // Parse `for {} else {}`
             self.advance();
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.join_breaks(break_ids);
     }
 
     fn parse_break_statement(&mut self) {
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index b5ef389..e1bed60 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -873,9 +873,15 @@ impl<'a> Parser<'a> {
         loop_start
     }
 
-    /// Marks the end of a loop, at the point where `break` statements should jump to (so after any `else` statements attached to the loop)
-    pub fn end_loop(&mut self) {
-        for jump in self.current_locals_mut().loops.pop().unwrap().break_ids {
+    /// Marks the end of a loop, before any `else` statement attached to the loop, which is not itself part of the loop.
+    /// Returns the `break` statements, which must be joined (after any `else` statement attached to the loop), with `join_breaks()`
+    pub fn end_loop(&mut self) -> Vec<ForwardBlockId> {
+        self.current_locals_mut().loops.pop().unwrap().break_ids
+    }
+
+    /// Joins each `break` statement in a loop, as returned from `end_loop()`, to the current location.
+    pub fn join_breaks(&mut self, break_ids: Vec<ForwardBlockId>) {
+        for jump in break_ids {
             self.join_forward(jump, BranchType::Jump);
         }
     }
-- 
2.43.0


From fcada63bed4c7778bd78851c90d7a3f1bd67397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 05/76] fix: an upvalue captured through an existing upvalue
 must use its position

---
 cordy-sys/src/compiler/parser/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index e1bed60..abc4c34 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1373,9 +1373,9 @@ impl<'a> Parser<'a> {
 
             // Only add it if we haven't found an upvalue with the same index and `!is_local` (which is unique).
             let mut found: bool = false;
-            for upvalue in &self.locals[depth as usize].upvalues {
+            for (i, upvalue) in self.locals[depth as usize].upvalues.iter().enumerate() {
                 if upvalue.index == index && !upvalue.is_local {
-                    index = upvalue.index; // Update the index
+                    index = i as u32; // Update the index
                     found = true; // And mark that we found an existing one
                     break
                 }
-- 
2.43.0


From dd68078787f763495bfbd1d39ab88ffe464cc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 06/76] fix: pattern assignment to a later declared method must
 be a compile error

---
 cordy-sys/src/compiler/parser/semantic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index abc4c34..bc5e435 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1077,7 +1077,7 @@ impl<'a> Parser<'a> {
                             self.insert(at, binding.loc, Constant(*function_id));
                         }
                     },
-                    (ReferenceType::Store(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
+                    (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
                     (_, _) => panic!("Invalid reference type set!"),
                 }
                 continue; // Skip the below i += 1, since this binding got swap-removed
-- 
2.43.0


From 3ddff1d401320515821cf9a9734f4516e0dd7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 07/76] fix: pattern assignment to a global from within a
 module method must not panic

---
 cordy-sys/src/compiler/parser/semantic.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index bc5e435..bea0d80 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1094,7 +1094,14 @@ impl<'a> Parser<'a> {
                 match binding.ty {
                     ReferenceType::Load(at) => Parser::do_insert(at, binding.loc, PushGlobal(fallback), &mut self.functions),
                     ReferenceType::Store(at) => Parser::do_insert(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
-                    _ => panic!()
+                    ReferenceType::StorePattern(pattern_index) => self.patterns[pattern_index].visit(&mut |op| {
+                        if let ParserStoreOp::LateBoundGlobal(index) = op {
+                            if *index == binding.index {
+                                *op = ParserStoreOp::Bound(StoreOp::Global(fallback))
+                            }
+                        }
+                    }),
+                    ReferenceType::Invalid => panic!("Invalid reference type set!"),
                 }
             } else if binding.error {
                 self.errors.insert(ParserError::new(UndeclaredIdentifier(binding.name), binding.loc));
-- 
2.43.0


From b42ae9ac06c51ef4c485f5bc472d63dee4eb12a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 08/76] fix: block comments end at the first closing delimiter

---
 cordy-sys/src/compiler/scanner.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index adfac9a..bfe1534 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -399,17 +399,12 @@ impl<'a> Scanner<'a> {
                            }
                            Some('*') => {
                                let start: usize = self.cursor;
+                               self.advance(); // The opening '*' may not be part of the closing `*/`
                                loop {
                                    match self.advance() {
-                                       Some('*') => {
-                                           match self.advance() {
-                                               Some('/') => break,
-                                               Some(_) => {},
-                                               None => {
-                                                   self.push_err_at(start, 2, UnterminatedBlockComment);
-                                                   break
-                                               }
-                                           }
+                                       Some('*') if self.peek() == Some('/') => {
+                                           self.advance();
+                                           break
                                        },
                                        Some(_) => {},
                                        None => {
-- 
2.43.0


From 32bdf3d29dab3a128dcd8f65405124955e9d78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 09/76] fix: function composition assignment to a field must
 call the function

---
 cordy-sys/src/compiler/parser/codegen.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index 5bb5dd4..f5d4c85 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -249,7 +249,13 @@ impl<'a> Parser<'a> {
                 self.emit_expr(*lhs);
                 self.push_at(GetFieldPeek(field_index), loc);
                 self.emit_expr(*rhs);
-                self.push_at(Binary(op), loc);
+                match op {
+                    BinaryOp::NotEqual => { // Marker to indicate this is a `lhs->field .= rhs`
+                        self.push(Swap);
+                        self.push_at(Call(1, false), loc);
+                    },
+                    op => self.push_at(Binary(op), loc),
+                }
                 self.push_at(SetField(field_index), loc);
             },
             Expr(loc, ExprType::Assignment(lvalue, rhs)) => {
-- 
2.43.0


From 6aaab6bf8ed6a07f11a5b7727dfe309026ca886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 10/76] fix: partially evaluated operators must apply their
 operands in order

---
 cordy-sys/src/compiler/parser/semantic.rs |  2 +-
 cordy-sys/src/core/mod.rs                 | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index bea0d80..41a48bf 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -388,7 +388,7 @@ impl LValue {
             // These are produced by the parser in some situations, so we have to handle them,
             // as at the time the parse was ambiguous
             ExprType::Call { f, args, unroll: false }
-                if matches!(*f, Expr(_, ExprType::NativeFunction(core::NativeFunction::OperatorMul)))
+                if matches!(*f, Expr(_, ExprType::NativeFunction(core::NativeFunction::OperatorMulSwap)))
                 && args.len() == 1 && matches!(args[0], Expr(_, ExprType::Empty))
                 => Ok(LValue::VarEmpty),
 
diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 1d554a5..bb2a492 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -59,6 +59,7 @@ pub enum NativeFunction {
     OperatorUnaryLogicalNot,
 
     OperatorMul,
+    OperatorMulSwap,
     OperatorDiv,
     OperatorDivSwap,
     OperatorPow,
@@ -80,8 +81,11 @@ pub enum NativeFunction {
     OperatorRightShift,
     OperatorRightShiftSwap,
     OperatorBitwiseAnd,
+    OperatorBitwiseAndSwap,
     OperatorBitwiseOr,
+    OperatorBitwiseOrSwap,
     OperatorBitwiseXor,
+    OperatorBitwiseXorSwap,
     OperatorLessThan,
     OperatorLessThanSwap,
     OperatorLessThanEqual,
@@ -226,6 +230,8 @@ impl NativeFunction {
 
     pub fn swap(self) -> NativeFunction {
         match self {
+            OperatorMul => OperatorMulSwap,
+            OperatorMulSwap => OperatorMul,
             OperatorDiv => OperatorDivSwap,
             OperatorDivSwap => OperatorDiv,
             OperatorPow => OperatorPowSwap,
@@ -246,6 +252,12 @@ impl NativeFunction {
             OperatorLeftShiftSwap => OperatorLeftShift,
             OperatorRightShift => OperatorRightShiftSwap,
             OperatorRightShiftSwap => OperatorRightShift,
+            OperatorBitwiseAnd => OperatorBitwiseAndSwap,
+            OperatorBitwiseAndSwap => OperatorBitwiseAnd,
+            OperatorBitwiseOr => OperatorBitwiseOrSwap,
+            OperatorBitwiseOrSwap => OperatorBitwiseOr,
+            OperatorBitwiseXor => OperatorBitwiseXorSwap,
+            OperatorBitwiseXorSwap => OperatorBitwiseXor,
             OperatorLessThan => OperatorLessThanSwap,
             OperatorLessThanSwap => OperatorLessThan,
             OperatorLessThanEqual => OperatorLessThanEqualSwap,
@@ -320,6 +332,7 @@ const fn load_native_functions() -> [NativeFunctionInfo; NativeFunction::total()
         op1(OperatorUnaryLogicalNot, "(not)", Arg1),
 
         op2(OperatorMul, "(*)"),
+        op2(OperatorMulSwap, "(*)"),
         op2(OperatorDiv, "(/)"),
         op2(OperatorDivSwap, "(/)"),
         op2(OperatorPow, "(**)"),
@@ -341,8 +354,11 @@ const fn load_native_functions() -> [NativeFunctionInfo; NativeFunction::total()
         op2(OperatorRightShift, "(>>)"),
         op2(OperatorRightShiftSwap, "(>>)"),
         op2(OperatorBitwiseAnd, "(&)"),
+        op2(OperatorBitwiseAndSwap, "(&)"),
         op2(OperatorBitwiseOr, "(|)"),
+        op2(OperatorBitwiseOrSwap, "(|)"),
         op2(OperatorBitwiseXor, "(^)"),
+        op2(OperatorBitwiseXorSwap, "(^)"),
         op2(OperatorLessThan, "(<)"),
         op2(OperatorLessThanSwap, "(<)"),
         op2(OperatorLessThanEqual, "(<=)"),
@@ -950,6 +966,7 @@ fn invoke_arg2<VM : VirtualInterface>(f: NativeFunction, a1: ValuePtr, a2: Value
         ),
         OperatorSub => operator::binary_sub(a1, a2),
         OperatorMul => operator::binary_mul(a1, a2),
+        OperatorMulSwap => operator::binary_mul(a2, a1),
         OperatorDiv => operator::binary_div(a1, a2),
         OperatorDivSwap => operator::binary_div(a2, a1),
         OperatorPow => operator::binary_pow(a1, a2),
@@ -971,8 +988,11 @@ fn invoke_arg2<VM : VirtualInterface>(f: NativeFunction, a1: ValuePtr, a2: Value
         OperatorRightShift => operator::binary_right_shift(a1, a2),
         OperatorRightShiftSwap => operator::binary_right_shift(a2, a1),
         OperatorBitwiseAnd => operator::binary_bitwise_and(a1, a2),
+        OperatorBitwiseAndSwap => operator::binary_bitwise_and(a2, a1),
         OperatorBitwiseOr => operator::binary_bitwise_or(a1, a2),
+        OperatorBitwiseOrSwap => operator::binary_bitwise_or(a2, a1),
         OperatorBitwiseXor => operator::binary_bitwise_xor(a1, a2),
+        OperatorBitwiseXorSwap => operator::binary_bitwise_xor(a2, a1),
         OperatorLessThan => (a1 < a2).to_value().ok(),
         OperatorLessThanSwap => (a2 < a1).to_value().ok(),
         OperatorLessThanEqual => (a1 <= a2).to_value().ok(),
-- 
2.43.0


From a1d9aff00b0dc5c3db0d8287211fe8fea5ab9142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 11/76] fix: indexing, slicing and ord must count characters,
 not bytes

---
 cordy-sys/src/core/strings.rs   | 2 +-
 cordy-sys/src/vm/value/mod.rs   | 2 +-
 cordy-sys/src/vm/value/slice.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 2fef6a7..552065b 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -203,7 +203,7 @@ pub fn chr(value: ValuePtr) -> ValueResult {
 
 pub fn ord(value: ValuePtr) -> ValueResult {
     let text = value.as_str_checked()?;
-    match text.len() {
+    match text.chars().count() {
         1 => (text.chars().next().unwrap() as u32 as i64)
             .to_value()
             .ok(),
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 9cbb40f..53c765c 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -1003,7 +1003,7 @@ impl<'a> Indexable<'a> {
 
     pub fn len(&self) -> usize {
         match self {
-            Indexable::Str(it) => it.len(),
+            Indexable::Str(it) => it.chars().count(),
             Indexable::List(it) => it.len(),
             Indexable::Vector(it) => it.len(),
         }
diff --git a/cordy-sys/src/vm/value/slice.rs b/cordy-sys/src/vm/value/slice.rs
index 0140be6..eab1268 100644
--- a/cordy-sys/src/vm/value/slice.rs
+++ b/cordy-sys/src/vm/value/slice.rs
@@ -101,7 +101,7 @@ impl Sliceable<'_> {
     /// Returns the length of the original value being sliced.
     pub fn len(&self) -> usize {
         match self {
-            Sliceable::Str(it, _) => it.len(),
+            Sliceable::Str(it, _) => it.chars().count(),
             Sliceable::List(it, _) => it.len(),
             Sliceable::Vector(it, _) => it.len(),
         }
-- 
2.43.0


From 756648bdc8a869722b8841170b44f982ca865ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 12/76] fix: out of range slice bounds must refer to the
 nearest end of the sequence

---
 cordy-sys/src/core/collections.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 0a18931..60a418b 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -102,8 +102,10 @@ pub fn get_slice(target: &ValuePtr, low: ValuePtr, high: ValuePtr, step: ValuePt
     let low: i64 = unwrap_or(low, if step > 0 { 0 } else { -1 })?;
     let high: i64 = unwrap_or(high, if step > 0 { length } else { -length - 1 })?;
 
-    let abs_start: i64 = to_index(length, low);
-    let abs_stop: i64 = to_index(length, high);
+    // Out of range bounds refer to the nearest end, before any step is taken
+    let (min, max) = if step > 0 { (0, length) } else { (-1, length - 1) };
+    let abs_start: i64 = to_index(length, low).clamp(min, max);
+    let abs_stop: i64 = to_index(length, high).clamp(min, max);
     let abs_step: usize = step.unsigned_abs() as usize;
 
     if step > 0 {
-- 
2.43.0


From cf331926fed27c9470058182267d2bd7bff289af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 13/76] fix: the optimizer must not move exit before its
 operand

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 448eed5..7d1440e 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -170,7 +170,7 @@ impl Expr {
 
     fn purity(&self) -> Purity {
         match &self.1 {
-            ExprType::Nil | ExprType::Exit | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
+            ExprType::Nil | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
             ExprType::LValue(_) => Purity::Weak,
 
             ExprType::Unary(_, arg) => arg.purity(),
-- 
2.43.0


From bb9ea141cca73c7ed39b7198c4cba5d4d5e3764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 14/76] fix: variadic arguments of a partially evaluated
 function must include the partial arguments

---
 cordy-sys/src/vm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index f421126..495d120 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -766,7 +766,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     // Exactly enough arguments to invoke the function
                     // We need to set up the stack correctly to call the function
                     let head: usize = func.jump_offset(total_nargs);
-                    let num_var_args: Option<u32> = func.num_var_args(nargs);
+                    let num_var_args: Option<u32> = func.num_var_args(total_nargs);
                     let (ptr, args) = partial.consume();
                     self.stack[i] = ptr; // Replace the `Nil` from earlier
                     insert(&mut self.stack, args, nargs);
-- 
2.43.0


From 426538e7b34c5bb08fe3d6d475a8bbcd3de7da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 15/76] fix: an assert with a non-string message must not panic

---
 cordy-sys/src/reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index b4e73ce..d9241e0 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -291,7 +291,7 @@ impl AsError for RuntimeError {
                 let mut any = false;
                 if !reason.is_nil() {
                     error.push(' ');
-                    error.push_str(reason.as_str_slice());
+                    error.push_str(&reason.to_str());
                     any = true;
                 }
                 if !message.is_nil() {
-- 
2.43.0


From 0655ed5393036c97ee3ce856c9dbd340d02b5a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 16/76] fix: return outside of a function must be a compile
 error instead of a panic

---
 cordy-sys/src/compiler/parser/errors.rs | 2 ++
 cordy-sys/src/compiler/parser/mod.rs    | 3 +++
 cordy-sys/src/reporting.rs              | 1 +
 3 files changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/errors.rs b/cordy-sys/src/compiler/parser/errors.rs
index 8e75dff..405ccf0 100644
--- a/cordy-sys/src/compiler/parser/errors.rs
+++ b/cordy-sys/src/compiler/parser/errors.rs
@@ -65,6 +65,7 @@ impl ParserError {
             LValueVarEmptyUsedOutsideAssignment |
             BreakOutsideOfLoop |
             ContinueOutsideOfLoop |
+            ReturnOutsideOfFunction |
             StructNotInGlobalScope |
             NonDefaultParameterAfterDefaultParameter |
             ParameterAfterVarParameter |
@@ -130,6 +131,7 @@ pub enum ParserErrorType {
     LValueVarEmptyUsedOutsideAssignment,
     BreakOutsideOfLoop,
     ContinueOutsideOfLoop,
+    ReturnOutsideOfFunction,
     StructNotInGlobalScope,
     NonDefaultParameterAfterDefaultParameter,
     ParameterAfterVarParameter,
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index c6d660f..ae74ce0 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -708,6 +708,9 @@ impl Parser<'_> {
         trace::trace_parser!("rule <return-statement>");
         self.push_delayed_pop();
         self.advance(); // Consume `return`
+        if self.function_depth == 0 {
+            self.semantic_error(ReturnOutsideOfFunction);
+        }
         match self.peek() {
             Some(CloseBrace) => { // Allow a bare return, but only when followed by a `}` or `;`, which we can recognize and discard properly.
                  self.push(Nil);
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index d9241e0..304f914 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -469,6 +469,7 @@ impl AsError for ParserError {
             LetWithTrivialVarNamed => String::from("'let' statement cannot consist of a single variadic named variable"),
             LValueEmptyUsedOutsideAssignment => String::from("Expected an expression, got '_' instead"),
             LValueVarEmptyUsedOutsideAssignment => String::from("Expected an expression, got '*_' instead"),
+            ReturnOutsideOfFunction => String::from("Invalid 'return' statement outside of a function"),
             BreakOutsideOfLoop => String::from("Invalid 'break' statement outside of an enclosing loop"),
             ContinueOutsideOfLoop => String::from("Invalid 'continue' statement outside of an enclosing loop"),
             StructNotInGlobalScope => String::from("'struct' statements can only be present in global scope"),
-- 
2.43.0


From 549c239fb6e342f669ce9256a11ba88a5253a86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 17/76] fix: permutations and combinations must accept a length
 of zero

---
 cordy-sys/src/core/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 60a418b..39867a3 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -310,7 +310,7 @@ pub fn reverse(args: impl Iterator<Item=ValuePtr>) -> ValuePtr {
 
 pub fn permutations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     let n = n.as_int_checked()?;
-    if n <= 0 {
+    if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Permutations).err();
     }
     args.to_iter()?
@@ -322,7 +322,7 @@ pub fn permutations(n: ValuePtr, args: ValuePtr) -> ValueResult {
 
 pub fn combinations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     let n = n.as_int_checked()?;
-    if n <= 0 {
+    if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Combinations).err();
     }
     args.to_iter()?
-- 
2.43.0


From 77a0d92c5e45f1c95c62398ac80fc0158e5719ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 18/76] fix: the length and the reverse of a range must agree
 with its elements

---
 cordy-sys/src/vm/value/range.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/vm/value/range.rs b/cordy-sys/src/vm/value/range.rs
index 56a6d29..1f10732 100644
--- a/cordy-sys/src/vm/value/range.rs
+++ b/cordy-sys/src/vm/value/range.rs
@@ -63,13 +63,13 @@ impl Range {
         match self.step.cmp(&0) {
             Ordering::Equal => self,
             Ordering::Greater => Range::new(
-                self.start + self.len() as i64 * self.step,
-                self.start + 1,
+                self.start + (self.len() as i64 - 1) * self.step,
+                self.start - 1,
                 -self.step
             ),
             Ordering::Less => Range::new(
-                self.start + self.len() as i64 * self.step,
-                self.start - 1,
+                self.start + (self.len() as i64 - 1) * self.step,
+                self.start + 1,
                 -self.step
             )
         }
@@ -112,7 +112,7 @@ impl Range {
         // Since this type ensures that the range is non-empty, we can do simple checked arithmetic
         match self.step {
             0 => 0,
-            _ => (self.start.abs_diff(self.stop) / self.step.unsigned_abs()) as usize
+            _ => self.start.abs_diff(self.stop).div_ceil(self.step.unsigned_abs()) as usize
         }
     }
 
-- 
2.43.0


From 562f248bdd44fa43d4cc63e146bb225593dff37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 19/76] fix: a rational equal to an integer must have the same
 hash

---
 cordy-sys/src/vm/value/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index f396b59..50252ab 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -572,7 +572,7 @@ impl Hash for ValuePtr {
                 // If rationals are expressible as 64-bit integers, they must hash identical to those
                 let value = self.as_rational();
                 match value.numer().to_i64() {
-                    Some(int) if value.denom() == &SmallInteger::from(0) => (int as u64).hash(state),
+                    Some(int) if value.denom() == &SmallInteger::from(1) && (ValuePtr::MIN_INT..=ValuePtr::MAX_INT).contains(&int) => int.to_value().hash(state),
                     _ => value.hash(state),
                 }
             },
-- 
2.43.0


From 3eff80dfca0f77ac0b9780d1db34040ad5ff0612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 20/76] fix: the hash of a set or dict must not depend on
 insertion order

---
 cordy-sys/src/vm/value/collections.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index 2b48c8d..2e5132d 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -1,7 +1,7 @@
 use std::cell::Cell;
 use std::cmp::{Ordering, Reverse};
 use std::collections::{BinaryHeap, VecDeque};
-use std::hash::{Hash, Hasher};
+use std::hash::{BuildHasher, Hash, Hasher};
 use std::ops::{Deref, DerefMut};
 use fxhash::FxBuildHasher;
 use indexmap::{IndexMap, IndexSet};
@@ -116,9 +116,7 @@ impl Hash for Prefix<Set> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
             Some(it) => {
-                for v in &it.set {
-                    v.hash(state)
-                }
+                state.write_u64(hash_unordered(it.set.iter()))
             },
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true)),
         }
@@ -179,9 +177,7 @@ impl Hash for Prefix<Dict> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
             Some(it) => {
-                for v in &it.dict {
-                    v.hash(state)
-                }
+                state.write_u64(hash_unordered(it.dict.iter()))
             },
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true))
         }
@@ -189,6 +185,12 @@ impl Hash for Prefix<Dict> {
 }
 
 
+/// Hashes a collection whose equality does not depend on the order of the elements
+fn hash_unordered<T : Hash>(it: impl Iterator<Item = T>) -> u64 {
+    it.fold(0, |sum, v| sum.wrapping_add(FxBuildHasher::default().hash_one(v)))
+}
+
+
 // Support for `set` and `dict` recursive hash exceptions
 thread_local! {
     static FLAG_RECURSIVE_HASH: Cell<bool> = Cell::new(false);
-- 
2.43.0


From 6c26d3f4de6b6718d78c5021d3de4c0773afc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 21/76] fix: zero raised to a negative rational power is a
 division by zero

---
 cordy-sys/src/vm/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index ee213f4..af14fcd 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -303,6 +303,7 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Rational, Bool | Int) => {
             let lhs = lhs.to_rational();
             match i32::try_from(rhs.as_int()) {
+                Ok(rhs) if rhs < 0 && lhs == 0 => ValueErrorDivideByZero.err(),
                 Ok(rhs) => lhs.pow(rhs).to_value().ok(),
                 Err(_) => ValueErrorValueWouldBeTooLarge.err()
             }
-- 
2.43.0


From ad9c4d9e5d34f9efea2ab4480f2ba71ea2b28265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 22/76] fix: repeating a sequence must not overflow the length

---
 cordy-sys/src/vm/operator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index af14fcd..5d46047 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -154,12 +154,20 @@ pub fn binary_mul(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     }
 }
 
+/// The length of a sequence of length `length`, repeated a non-negative number of times, or `None` if it would be too large.
+fn repeat_length(length: usize, repeat: i64) -> Option<usize> {
+    length.checked_mul(repeat as usize).filter(|&n| n <= i32::MAX as usize)
+}
+
 fn binary_str_repeat(string: ValuePtr, repeat: ValuePtr) -> ValueResult {
     let i = repeat.as_int();
     if i < 0 {
         ValueErrorBinaryOpMustNotBeNegative(string, BinaryOp::Mul, i).err()
     } else {
-        string.as_str_slice().repeat(i as usize).to_value().ok()
+        match repeat_length(string.as_str_slice().len(), i) {
+            Some(_) => string.as_str_slice().repeat(i as usize).to_value().ok(),
+            None => ValueErrorValueWouldBeTooLarge.err()
+        }
     }
 }
 
@@ -169,9 +177,13 @@ fn binary_list_repeat(list: ValuePtr, repeat: ValuePtr, deep: bool) -> ValueResu
         ValueErrorBinaryOpMustNotBeNegative(list, if deep { BinaryOp::Pow } else { BinaryOp::Mul }, i).err()
     } else {
         let list = list.as_list().borrow();
+        let length = match repeat_length(list.len(), i) {
+            Some(length) => length,
+            None => return ValueErrorValueWouldBeTooLarge.err()
+        };
         let iter = list.iter()
             .cycle()
-            .take(i as usize * list.len())
+            .take(length)
             .cloned();
 
         match deep {
-- 
2.43.0


From a45f2c512f1e105cdcb8f81f89d58d1e186a9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 23/76] fix: repr of a string must only use escapes that string
 literals have

---
 cordy-sys/src/vm/value/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 53c765c..5582b4f 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -231,8 +231,21 @@ impl ValuePtr {
                 Cow::from("")
             ),
             Type::ShortStr | Type::LongStr => {
-                let escaped = format!("{:?}", self.as_str_slice());
-                Cow::from(format!("'{}'", &escaped[1..escaped.len() - 1]))
+                // Only uses escape sequences which are valid within a string literal
+                let str = self.as_str_slice();
+                let mut escaped = String::with_capacity(str.len() + 2);
+                escaped.push('\'');
+                for c in str.chars() {
+                    match c {
+                        '\\' => escaped.push_str("\\\\"),
+                        '\n' => escaped.push_str("\\n"),
+                        '\r' => escaped.push_str("\\r"),
+                        '\t' => escaped.push_str("\\t"),
+                        c => escaped.push(c)
+                    }
+                }
+                escaped.push('\'');
+                Cow::from(escaped)
             },
 
             Type::List => recursive_guard!(
-- 
2.43.0


From 8dee2544a388fc14997893ac5034bec2ad7b897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 24/76] fix: the body of an anonymous function must not extend
 over the following arguments

---
 cordy-sys/src/compiler/parser/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index ae74ce0..57e0b42 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -497,7 +497,7 @@ impl Parser<'_> {
         // Expression functions don't declare themselves as a local variable that can be referenced.
         // Instead, as they're part of an expression, they just push a single function instance onto the stack
         let func: u32 = self.declare_function(String::from("_"), &params);
-        let closed_locals = self.parse_function_body(params);
+        let closed_locals = self.parse_function_body(params, true);
         Expr::function(func, closed_locals)
     }
 
@@ -599,11 +599,12 @@ impl Parser<'_> {
     }
 
     fn parse_function_body_and_emit(&mut self, params: ParserFunctionParameters) {
-        let closed_locals = self.parse_function_body(params);
+        let closed_locals = self.parse_function_body(params, false);
         self.emit_closure_and_closed_locals(closed_locals);
     }
 
-    fn parse_function_body(&mut self, params: ParserFunctionParameters) -> Vec<Opcode> {
+    /// If `comma` is true, then this function is part of an expression, where a `,` ends the function, i.e. is a separator of arguments or elements
+    fn parse_function_body(&mut self, params: ParserFunctionParameters, comma: bool) -> Vec<Opcode> {
         trace::trace_parser!("rule <function-body>");
         let prev_pop_status: bool = self.delay_pop_from_expression_statement; // Stack semantics for the delayed pop
 
@@ -668,7 +669,8 @@ impl Parser<'_> {
             },
             Some(Arrow) => {
                 self.advance(); // Expression-based function
-                self.parse_expression(); // So parse an expression
+                let expr: Expr = self.parse_expr_11(comma); // So parse an expression
+                self.emit_optimized_expr(expr);
                 false
             },
             _ => {
-- 
2.43.0


From 0d8b61d76bbfec12a315e988d6f2f22b428f854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 25/76] fix: default arguments must capture variables of
 enclosing functions

---
 cordy-sys/src/compiler/parser/mod.rs      | 23 +++++++++++++++++++++--
 cordy-sys/src/compiler/parser/semantic.rs |  2 ++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 57e0b42..543be63 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -515,6 +515,7 @@ impl Parser<'_> {
         let mut params = ParserFunctionParameters {
             args: Vec::new(),
             default_args: Vec::new(),
+            locals: Locals::new(None),
             variadic: false,
             instance: false
         };
@@ -583,7 +584,8 @@ impl Parser<'_> {
                 },
                 Some(Equals) => {
                     self.advance(); // Consume `=`
-                    params.default_args.push(self.parse_expr()); // Parse an expression
+                    let expr: Expr = self.parse_default_argument(&mut params);
+                    params.default_args.push(expr);
                 },
                 _ => if !params.variadic && !params.default_args.is_empty() {
                     self.semantic_error(NonDefaultParameterAfterDefaultParameter);
@@ -598,6 +600,21 @@ impl Parser<'_> {
         params
     }
 
+    /// Default arguments are evaluated by the function itself, so any reference to a local variable of an enclosing function
+    /// must be resolved from within the locals of the function.
+    fn parse_default_argument(&mut self, params: &mut ParserFunctionParameters) -> Expr {
+        self.locals.push(std::mem::replace(&mut params.locals, Locals::new(None)));
+        self.function_depth += 1;
+        self.scope_depth += 1;
+
+        let expr: Expr = self.parse_expr();
+
+        self.function_depth -= 1;
+        self.scope_depth -= 1;
+        params.locals = self.locals.pop().unwrap();
+        expr
+    }
+
     fn parse_function_body_and_emit(&mut self, params: ParserFunctionParameters) {
         let closed_locals = self.parse_function_body(params, false);
         self.emit_closure_and_closed_locals(closed_locals);
@@ -612,7 +629,9 @@ impl Parser<'_> {
         // In addition, we let parameters have their own scope depth one outside locals to the function
         // This lets us 1) declare parameters here, in the right scope,
         // and 2) avoid popping parameters at the end of a function call (as they're handled by the `Return` opcode instead)
-        self.locals.push(Locals::new(Some(self.functions.len() - 1)));
+        let mut locals: Locals = params.locals;
+        locals.func = Some(self.functions.len() - 1);
+        self.locals.push(locals);
         self.function_depth += 1;
         self.scope_depth += 1;
 
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 41a48bf..d9de46f 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -719,6 +719,8 @@ pub struct ParserFunctionParameters {
     pub args: Vec<LValue>,
     /// Any default argument values, if present
     pub default_args: Vec<Expr>,
+    /// The `Locals` of the function, which may already contain upvalues referenced by default arguments.
+    pub locals: Locals,
     /// If `true`, this function has a variadic `*x` argument as the last argument
     pub variadic: bool,
     /// If `true`, this function has an explicit `self` parameter as it's first argument
-- 
2.43.0


From 16773725a93d0c97d100e078775d0c983784d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 26/76] fix: any iterable can be destructured, as documented

---
 cordy-sys/src/core/pattern.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/pattern.rs b/cordy-sys/src/core/pattern.rs
index e0482ee..75a8b49 100644
--- a/cordy-sys/src/core/pattern.rs
+++ b/cordy-sys/src/core/pattern.rs
@@ -1,5 +1,5 @@
 use crate::core;
-use crate::vm::{AnyResult, IntoValue, StoreOp, ValuePtr, VirtualInterface};
+use crate::vm::{AnyResult, IntoIterableValue, IntoValue, StoreOp, Type, ValuePtr, VirtualInterface};
 use crate::vm::RuntimeError;
 
 use RuntimeError::{*};
@@ -77,6 +77,16 @@ impl Pattern<StoreOp> {
     pub fn apply<VM : VirtualInterface>(&self, vm: &mut VM, ptr: &ValuePtr) -> AnyResult {
         self.check_length(ptr)?;
 
+        // Any iterable can be destructured, but only some are able to be indexed by position
+        let elements: ValuePtr;
+        let ptr: &ValuePtr = match ptr.ty() {
+            Type::List | Type::Vector | Type::ShortStr | Type::LongStr => ptr,
+            _ => {
+                elements = ptr.clone().to_iter()?.to_list();
+                &elements
+            }
+        };
+
         // Reverse order as some terms are stack sensitive (like array store)
         for term in self.terms.iter().rev() {
             match term {
-- 
2.43.0


From 81c00520be2ee7aca25a833a9908a359f78cc673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 27/76] fix: nested starred names and trailing commas in
 assignment patterns

---
 cordy-sys/src/compiler/parser/mod.rs      |  9 +++++++--
 cordy-sys/src/compiler/parser/semantic.rs | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 543be63..91b1e92 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -2021,8 +2021,13 @@ impl Parser<'_> {
             match self.peek() {
                 Some(Comma) => {
                     // Comma expressions parsed in this way are only ever used as pattern assignments, so they only need to be followed by `)` or `=` to accept a trailing comma
-                    if let Some(CloseParen | Equals) = self.peek2() {
-                        break
+                    match self.peek2() {
+                        Some(CloseParen) => break,
+                        Some(Equals) => {
+                            self.advance(); // Consume the trailing `,`
+                            return Expr::comma(Location::empty(), args, true, true)
+                        },
+                        _ => {}
                     }
 
                     self.advance(); // Consume `,`
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index d9de46f..0a8f535 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -383,7 +383,10 @@ impl LValue {
             ExprType::Comma { args, .. } => args.into_iter()
                 .map(|Expr(_, expr)| LValue::from(expr, false))
                 .collect::<Result<Vec<LValue>, ParserErrorType>>()
-                .map(LValue::Terms),
+                .and_then(|terms| match terms[..] {
+                    [LValue::VarNamed(_)] => Err(AssignmentTargetInvalid), // `(*x)` on its own is not a pattern
+                    _ => Ok(LValue::Terms(terms))
+                }),
 
             // These are produced by the parser in some situations, so we have to handle them,
             // as at the time the parse was ambiguous
@@ -392,6 +395,15 @@ impl LValue {
                 && args.len() == 1 && matches!(args[0], Expr(_, ExprType::Empty))
                 => Ok(LValue::VarEmpty),
 
+            // Similarly, a nested `(*x, ...)` is parsed as the partial operator `(* x)`
+            ExprType::Call { f, mut args, unroll: false }
+                if matches!(*f, Expr(_, ExprType::NativeFunction(core::NativeFunction::OperatorMulSwap)))
+                && args.len() == 1 && matches!(&args[0], Expr(_, ExprType::LValue(lvalue)) if lvalue.is_assignable())
+                => match args.pop() {
+                    Some(Expr(_, ExprType::LValue(lvalue))) => Ok(LValue::VarNamed(lvalue)),
+                    _ => Err(AssignmentTargetInvalid)
+                },
+
             ExprType::Index(array, index) => Ok(LValue::Named(LValueReference::Array(array, index))),
             ExprType::GetField(expr, field_index) => Ok(LValue::Named(LValueReference::Field(expr, field_index))),
 
-- 
2.43.0


From 7e7c2f3301fa87884486be4101955bd998d3195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 28/76] fix: memoized functions, field access functions and
 partial native functions are functions of the right arity

---
 cordy-sys/src/vm/value/func.rs | 2 +-
 cordy-sys/src/vm/value/mod.rs  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/vm/value/func.rs b/cordy-sys/src/vm/value/func.rs
index 8242472..4fcaa90 100644
--- a/cordy-sys/src/vm/value/func.rs
+++ b/cordy-sys/src/vm/value/func.rs
@@ -305,7 +305,7 @@ impl PartialNativeFunction {
     }
 
     pub fn min_nargs(&self) -> u32 {
-        self.func.min_nargs()
+        self.partial.min_nargs()
     }
 }
 
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 5582b4f..9c3229d 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -122,7 +122,7 @@ impl Type {
     fn is_evaluable(self) -> bool {
         use Type::{*};
         match self {
-            Function | PartialFunction | NativeFunction | PartialNativeFunction | Closure | StructType | Slice => true,
+            Function | PartialFunction | NativeFunction | PartialNativeFunction | Closure | StructType | Slice | Memoized | GetField => true,
             _ => false
         }
     }
@@ -406,7 +406,8 @@ impl ValuePtr {
             Type::PartialNativeFunction => Some(self.as_partial_native().min_nargs()),
             Type::Closure => Some(self.as_closure().borrow_func().min_args()),
             Type::StructType => Some(self.as_struct_type().num_fields()),
-            Type::Slice => Some(1),
+            Type::Slice | Type::GetField => Some(1),
+            Type::Memoized => self.as_memoized().borrow().func.min_nargs(),
             _ => None,
         }
     }
-- 
2.43.0


From b40832177264371c608998df7166434059577305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 29/76] fix: late bound names must be loaded and stored in the
 position they were used

---
 cordy-sys/src/compiler/parser/core/graph.rs | 29 +++++++++++++--------
 cordy-sys/src/compiler/parser/core/mod.rs   |  2 ++
 cordy-sys/src/compiler/parser/semantic.rs   | 10 +++----
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/graph.rs b/cordy-sys/src/compiler/parser/core/graph.rs
index 1e134bf..da656f6 100644
--- a/cordy-sys/src/compiler/parser/core/graph.rs
+++ b/cordy-sys/src/compiler/parser/core/graph.rs
@@ -106,6 +106,7 @@ impl<'a> Parser<'a> {
     }
 
     /// Returns a unique identifier for the next opcode in the current function.
+    /// This must be followed by pushing a placeholder opcode, which can then be filled in with `insert()`
     ///
     /// N.B. The parser **must** be within a function, this does not allow identifying targets within global code!
     pub fn next_opcode(&self) -> OpcodeId {
@@ -119,7 +120,12 @@ impl<'a> Parser<'a> {
 
     pub fn insert(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) { Parser::do_insert(at, loc, opcode, &mut self.functions) }
 
-    /// Inserts the provided instruction at the `OpcodeId`, and shifts all other code forward.
+    /// Inserts the provided instruction immediately after the `OpcodeId`, and shifts all other code forward.
+    pub fn insert_after(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) {
+        self.functions[at.function_id].code.blocks[at.code_id.block_id].insert_after(at.code_id.opcode_id, loc, opcode);
+    }
+
+    /// Fills in the placeholder at the `OpcodeId` with the provided instruction.
     ///
     /// **Implementation Note:** This does not take `&mut self` to allow the flexibility of partial borrows.
     pub fn do_insert(at: OpcodeId, loc: Location, opcode: Opcode, functions: &mut [ParserFunctionImpl]) {
@@ -290,16 +296,17 @@ impl Block {
     }
 
     fn insert(&mut self, id: usize, loc: Location, opcode: Opcode) {
-        match self.code.iter().position(|(i, _, _)| i == &id) {
-            // The target `OpcodeId` was found, so insert immediately after, and shift all opcodes to the right
-            Some(code_id) => self.code.insert(code_id, (self.code.len(), loc, opcode)),
-            // The target `OpcodeId` was not found, which means this was an empty block
-            // Just push into the empty block
-            None => {
-                debug_assert!(self.code.is_empty()); // This should always be true, if we cannot find a matching `OpcodeId`
-                self.code.push((0, loc, opcode))
-            }
-        }
+        let index = self.position(id);
+        self.code[index] = (id, loc, opcode);
+    }
+
+    fn insert_after(&mut self, id: usize, loc: Location, opcode: Opcode) {
+        let index = self.position(id);
+        self.code.insert(index + 1, (self.code.len(), loc, opcode));
+    }
+
+    fn position(&self, id: usize) -> usize {
+        self.code.iter().position(|(i, _, _)| i == &id).expect("Missing placeholder opcode")
     }
 
     fn end(&mut self, end: BlockEnd) {
diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 36bba9e..1a003a4 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -234,6 +234,7 @@ impl<'a> Parser<'a> {
 
             LValueReference::LateBinding(mut binding) => {
                 binding.update(ReferenceType::Load(self.next_opcode()));
+                self.push_at(Opcode::placeholder(), loc); // Filled in once the binding is resolved
                 self.late_bindings.push(*binding);
             }
 
@@ -272,6 +273,7 @@ impl<'a> Parser<'a> {
 
             LValueReference::LateBinding(mut binding) => {
                 binding.update(ReferenceType::Store(self.next_opcode()));
+                self.push_at(Opcode::placeholder(), loc); // Filled in once the binding is resolved
                 self.late_bindings.push(*binding);
             }
 
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 0a8f535..47d8358 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1072,15 +1072,15 @@ impl<'a> Parser<'a> {
                             match binding.this {
                                 LValueReference::Invalid => self.error_at(binding.loc, UndeclaredSelf),
 
-                                // Since we have a single reference point for insert, we need to insert in reverse order from the same point
+                                // The placeholder is replaced with loading `self`, and the method access is inserted after it
                                 // Slightly different opcodes for `LocalThis` vs. `UpValueThis`
                                 LValueReference::LocalThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushLocal(index))
+                                    self.insert(at.clone(), binding.loc, PushLocal(index));
+                                    self.insert_after(at, binding.loc, GetMethod(*function_id))
                                 }
                                 LValueReference::UpValueThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushUpValue(index))
+                                    self.insert(at.clone(), binding.loc, PushUpValue(index));
+                                    self.insert_after(at, binding.loc, GetMethod(*function_id))
                                 },
 
                                 lvalue => panic!("`self` should not be bound to {:?}", lvalue)
-- 
2.43.0


From edc1c85676bb305c1b7eb2ebcbe3f2755c3b42af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 30/76] fix: fields accessed with an implicit self can be
 assigned within patterns

---
 cordy-sys/src/compiler/parser/semantic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 47d8358..f2a0507 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -666,6 +666,12 @@ impl LValueReference {
                 ParserStoreOp::LateBoundGlobal(index)
             }
 
+            // `self` is pushed onto the stack, like the target of an explicit `self->field`
+            LValueReference::ThisField { field_index, .. } => {
+                parser.push_store_lvalue_prefix(&self, parser.prev_location());
+                ParserStoreOp::Bound(StoreOp::Field(field_index))
+            }
+
             LValueReference::Invalid => ParserStoreOp::Invalid, // Error has already been raised
             _ => panic!("Invalid store from within pattern: {:?}", self),
 
-- 
2.43.0


From 312c8a44a2c60392091ae0c04c7493b7be5998ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 31/76] fix: names are only bound to methods of an enclosing
 module

---
 cordy-sys/src/compiler/parser/semantic.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index f2a0507..2beed5a 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -235,6 +235,8 @@ pub struct LateBinding {
     /// A unique index for every late binding, along with the name (not unique).
     index: usize,
     name: String,
+    /// The names of the modules enclosing this reference. Only methods of these modules can be bound to.
+    modules: Vec<String>,
     /// This is a late-bound reference to `self`, which is required when the late binding is later declared as a `self` method.
     /// If the binding didn't have a `self` available, this will be `Invalid`, which needs to raise an error upon trying to bind to a `self` method.
     this: LValueReference,
@@ -262,10 +264,11 @@ impl LateBinding {
         let loc = parser.prev_location();
         let error = !parser.error_recovery;
         let this = parser.resolve_reference(Reference::LateThis);
+        let modules = parser.modules.iter().map(|module| module.name.clone()).collect();
 
         parser.late_binding_next_index += 1;
 
-        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error })
+        Box::new(LateBinding { index, name, modules, this, ty: ReferenceType::Invalid, loc, fallback, error })
     }
 
     pub fn update(&mut self, ty: ReferenceType) {
@@ -1051,9 +1054,15 @@ impl<'a> Parser<'a> {
         while i < self.late_bindings.len() {
             let binding = &self.late_bindings[i];
 
+            // Methods are only visible from within the module that declares them
+            let visible = match &result {
+                LateBound::Local(_) => true,
+                LateBound::Method { .. } => self.modules.last().is_some_and(|module| binding.modules.contains(&module.name)),
+            };
+
             // If the binding matches, it will be declared here
             // The first declaration is always the matching one, as the precedence for methods/fields -> globals is always maintained
-            if binding.name == name {
+            if visible && binding.name == name {
                 let binding = self.late_bindings.swap_remove(i); // Remove this binding - this drops the borrow on self.bindings
 
                 // Update the binding if possible
-- 
2.43.0


From 40288942118df30fe8ec1e30e6309faf77c9b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 32/76] fix: set union, intersect and difference with the set
 itself, preserving the order of the remaining elements

---
 cordy-sys/src/core/collections.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 39867a3..9f57826 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -645,9 +645,11 @@ pub fn set_union(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.union(other) := add everything from other to this
+            // Take the elements first, as `other` may be, or contain, `this`
+            let elements = other.to_iter()?.collect::<Vec<ValuePtr>>();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
-                set.insert(e);
+            for e in elements {
+                set.insert_checked(e)?;
             }
             drop(set);
             this.ok()
@@ -661,8 +663,8 @@ pub fn set_intersect(other: ValuePtr, this: ValuePtr) -> ValueResult {
         Type::Set => {
             // this.intersect(other) := only keep elements of this that are also in other
             // Since we have just an iterator, we need to compute a set of `other`, then repeatedly check `contains()` for each element in `this`
-            let mut set = this.as_set().borrow_mut();
             let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
+            let mut set = this.as_set().borrow_mut();
             set.retain(|e| other.contains(e));
             drop(set);
             this.ok()
@@ -675,10 +677,10 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.difference(other) := remove everything from this that is in other
+            // Take the elements first, as `other` may be, or contain, `this`. Then remove them all at once, preserving the order of the rest
+            let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
-                set.remove(&e);
-            }
+            set.retain(|e| !other.contains(e));
             drop(set);
             this.ok()
         },
-- 
2.43.0


From 905a75803c9429d6a917282a90ca7d66135fdbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 33/76] fix: equality, ordering and hashing of values which
 contain themselves

---
 cordy-sys/src/vm/value/ptr.rs | 71 +++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 19 deletions(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index 50252ab..ccddad1 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -1,4 +1,4 @@
-use std::cell::{Cell, UnsafeCell};
+use std::cell::{Cell, RefCell, UnsafeCell};
 use std::cmp::Ordering;
 use std::fmt::{Debug, Formatter};
 use std::hash::{Hash, Hasher};
@@ -327,6 +327,29 @@ impl Default for ValuePtr {
 /// Implementing `Eq` is done on a type-wide basis. We assume each pointer type implements `Eq` themselves.
 /// First, we check that the types are equal, and if they are, we match on the type and check the underlying value.
 impl Eq for ValuePtr {}
+// Support for equality, ordering, and hashing of values which contain themselves
+thread_local! {
+    static COMPARING: RefCell<Vec<(u64, u64)>> = const { RefCell::new(Vec::new()) };
+    static HASHING: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
+}
+
+/// Invokes `f()`, unless `value` is already present in `active`, i.e. this is a recursive invocation on the same value, in which case `default` is returned.
+fn guard_recursive<V : PartialEq + 'static, T>(active: &'static std::thread::LocalKey<RefCell<Vec<V>>>, value: V, default: T, f: impl FnOnce() -> T) -> T {
+    if active.with_borrow(|active| active.contains(&value)) {
+        return default
+    }
+    active.with_borrow_mut(|active| active.push(value));
+    let ret = f();
+    active.with_borrow_mut(|active| active.pop());
+    ret
+}
+
+/// Invokes a comparison `f()` of two mutable values. A value is always equal to itself, and a recursive comparison of the same two values makes no difference.
+fn guard_compare<T>(lhs: &ValuePtr, rhs: &ValuePtr, default: T, f: impl FnOnce() -> T) -> T {
+    let (lhs, rhs) = unsafe { (lhs.long_tag, rhs.long_tag) };
+    if lhs == rhs { default } else { guard_recursive(&COMPARING, (lhs, rhs), default, f) }
+}
+
 impl PartialEq for ValuePtr {
     fn eq(&self, other: &Self) -> bool {
         let ty: Type = self.ty();
@@ -336,6 +359,10 @@ impl PartialEq for ValuePtr {
             ($f:ident) => { other_ty == ty && self.$f() == other.$f() };
         }
 
+        macro_rules! eq_mut {
+            ($f:ident) => { other_ty == ty && guard_compare(self, other, true, || self.$f() == other.$f()) };
+        }
+
         match ty {
             Type::Nil |
             Type::Bool |
@@ -370,12 +397,12 @@ impl PartialEq for ValuePtr {
             Type::PartialNativeFunction => eq!(as_partial_native),
             Type::Slice => eq!(as_slice),
             Type::LongStr => ty == other_ty && self.as_prefix::<String>() == other.as_prefix::<String>(),
-            Type::List => eq!(as_list),
-            Type::Set => eq!(as_set),
-            Type::Dict => eq!(as_dict),
-            Type::Heap => eq!(as_heap),
-            Type::Vector => eq!(as_vector),
-            Type::Struct => eq!(as_struct),
+            Type::List => eq_mut!(as_list),
+            Type::Set => eq_mut!(as_set),
+            Type::Dict => eq_mut!(as_dict),
+            Type::Heap => eq_mut!(as_heap),
+            Type::Vector => eq_mut!(as_vector),
+            Type::Struct => eq_mut!(as_struct),
             Type::StructType => eq!(as_struct_type),
             Type::Memoized => eq!(as_memoized),
             Type::Function => eq!(as_function),
@@ -397,6 +424,9 @@ impl Ord for ValuePtr {
             ($ty:ident, $inner:ident) => {
                 if other.ty() == Type::$ty { self.as_prefix::<$inner>().cmp(&other.as_prefix::<$inner>()) } else { Ordering::Equal }
             };
+            (mut $ty:ident, $inner:ident) => {
+                guard_compare(self, other, Ordering::Equal, || cmp!($ty, $inner))
+            };
         }
 
         let ty: Type = self.ty();
@@ -475,12 +505,12 @@ impl Ord for ValuePtr {
             // If the type is the same, they check the ordering between the same types
             Type::Range => cmp!(Range, Range),
             Type::Enumerate => cmp!(Enumerate, Enumerate),
-            Type::List => cmp!(List, List),
-            Type::Set => cmp!(Set, Set),
-            Type::Dict => cmp!(Dict, Dict),
-            Type::Heap => cmp!(Heap, Heap),
-            Type::Vector => cmp!(Vector, Vector),
-            Type::Struct => cmp!(Struct, StructImpl),
+            Type::List => cmp!(mut List, List),
+            Type::Set => cmp!(mut Set, Set),
+            Type::Dict => cmp!(mut Dict, Dict),
+            Type::Heap => cmp!(mut Heap, Heap),
+            Type::Vector => cmp!(mut Vector, Vector),
+            Type::Struct => cmp!(mut Struct, StructImpl),
 
             // Any other types are not explicitly ordered
             _ => Ordering::Equal
@@ -558,6 +588,9 @@ impl Hash for ValuePtr {
         macro_rules! hash {
             ($f:ident) => { self.$f().hash(state) };
         }
+        macro_rules! hash_mut {
+            ($f:ident) => { guard_recursive(&HASHING, unsafe { self.long_tag }, (), || self.$f().hash(state)) };
+        }
         match self.ty() {
             Type::Nil |
             Type::Bool |
@@ -582,12 +615,12 @@ impl Hash for ValuePtr {
             Type::Slice => hash!(as_slice),
             Type::Range => hash!(as_range),
             Type::LongStr => self.as_prefix::<String>().hash(state),
-            Type::List => hash!(as_list),
-            Type::Set => hash!(as_set),
-            Type::Dict => hash!(as_dict),
-            Type::Heap => hash!(as_heap),
-            Type::Vector => hash!(as_vector),
-            Type::Struct => hash!(as_struct),
+            Type::List => hash_mut!(as_list),
+            Type::Set => hash_mut!(as_set),
+            Type::Dict => hash_mut!(as_dict),
+            Type::Heap => hash_mut!(as_heap),
+            Type::Vector => hash_mut!(as_vector),
+            Type::Struct => hash_mut!(as_struct),
             Type::StructType => hash!(as_struct_type),
             Type::Memoized => hash!(as_memoized),
             Type::Function => hash!(as_function),
-- 
2.43.0


From 41466118de2331cf85a86735ada9b847830a5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 34/76] fix: nil and bool compared equal to the rationals 0 and
 1 they are not equal to

---
 cordy-sys/src/vm/value/ptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index ccddad1..1ea2a60 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -461,8 +461,8 @@ impl Ord for ValuePtr {
                     Type::Rational => {
                         // Comparing rational vs. non-rational integral, so compare the equivalent rational values
                         // Note that we cannot enforce any order on rationals that equal their integral counterparts, as we would
-                        // break the symmetry of Ord + Eq
-                        SmallRational::from((lhs, 1)).cmp(other.as_rational())
+                        // break the symmetry of Ord + Eq. So `nil` and `bool` order before rationals exactly as they do before integers
+                        SmallRational::from((lhs, 1)).cmp(other.as_rational()).then((ty as u8).cmp(&(Type::Int as u8)))
                     }
                     _ => Ordering::Equal,
                 }
-- 
2.43.0


From 6482faa51fbbbba4f24a2b91bb5cee030e1a9b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 35/76] fix: closures over different variables and partial
 functions with different arguments were equal

---
 cordy-sys/src/core/mod.rs      | 2 +-
 cordy-sys/src/vm/value/func.rs | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index bb2a492..13fcbf7 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -498,7 +498,7 @@ impl Argument {
 ///
 /// This *should be* optimize-able, given that we already perform a dispatch against the function once, when creating the partial function. So, we use `PartialArgument` to represent that state, post-dispatch.
 /// We can also create partial argument types that have an explicit number of partial arguments
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, Eq, PartialEq)]
 pub enum PartialArgument {
     Arg2Par1(ValuePtr),
     Arg3Par1(ValuePtr),
diff --git a/cordy-sys/src/vm/value/func.rs b/cordy-sys/src/vm/value/func.rs
index 4fcaa90..83da458 100644
--- a/cordy-sys/src/vm/value/func.rs
+++ b/cordy-sys/src/vm/value/func.rs
@@ -178,7 +178,7 @@ impl ValuePtr {
 impl Eq for PartialFunction {}
 impl PartialEq<Self> for PartialFunction {
     fn eq(&self, other: &Self) -> bool {
-        self.func == other.func
+        self.func == other.func && self.args == other.args
     }
 }
 
@@ -247,7 +247,10 @@ impl ValuePtr {
 
 impl PartialEq for Closure {
     fn eq(&self, other: &Self) -> bool {
+        // Two closures which do not share the same environment may have different behavior
         self.func == other.func
+            && self.environment.len() == other.environment.len()
+            && self.environment.iter().zip(other.environment.iter()).all(|(lhs, rhs)| Rc::ptr_eq(lhs, rhs))
     }
 }
 
@@ -312,7 +315,7 @@ impl PartialNativeFunction {
 impl Eq for PartialNativeFunction {}
 impl PartialEq<Self> for PartialNativeFunction {
     fn eq(&self, other: &Self) -> bool {
-        self.func == other.func
+        self.func == other.func && self.partial == other.partial
     }
 }
 
-- 
2.43.0


From 527c2af9234b1bac659d9546925ce35eb445d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 36/76] fix: equality and order of heaps, sets and dicts
 depended on their internal order

---
 cordy-sys/src/vm/value/collections.rs | 37 ++++++++++++++-------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index 2e5132d..c84dd35 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -5,6 +5,7 @@ use std::hash::{BuildHasher, Hash, Hasher};
 use std::ops::{Deref, DerefMut};
 use fxhash::FxBuildHasher;
 use indexmap::{IndexMap, IndexSet};
+use itertools::Itertools;
 
 use crate::core::InvokeArg0;
 use crate::util::{impl_deref, impl_partial_ord};
@@ -87,13 +88,7 @@ impl Set {
 impl_partial_ord!(Set);
 impl Ord for Set {
     fn cmp(&self, other: &Self) -> Ordering {
-        for (l, r) in self.iter().zip(other.iter()) {
-            match l.cmp(r) {
-                Ordering::Equal => {},
-                ord => return ord,
-            }
-        }
-        self.len().cmp(&other.len())
+        cmp_unordered(self.iter(), other.iter())
     }
 }
 
@@ -162,13 +157,7 @@ impl PartialOrd for Dict { fn partial_cmp(&self, other: &Self) -> Option<Orderin
 
 impl Ord for Dict {
     fn cmp(&self, other: &Self) -> Ordering {
-        for (l, r) in self.keys().zip(other.keys()) {
-            match l.cmp(r) {
-                Ordering::Equal => {},
-                ord => return ord,
-            }
-        }
-        self.len().cmp(&other.len())
+        cmp_unordered(self.keys(), other.keys())
     }
 }
 
@@ -191,6 +180,12 @@ fn hash_unordered<T : Hash>(it: impl Iterator<Item = T>) -> u64 {
 }
 
 
+/// Compares the elements of two collections whose equality does not depend on the order of the elements, from the smallest element up
+fn cmp_unordered<'a>(lhs: impl Iterator<Item = &'a ValuePtr>, rhs: impl Iterator<Item = &'a ValuePtr>) -> Ordering {
+    lhs.sorted().cmp(rhs.sorted())
+}
+
+
 // Support for `set` and `dict` recursive hash exceptions
 thread_local! {
     static FLAG_RECURSIVE_HASH: Cell<bool> = Cell::new(false);
@@ -225,7 +220,15 @@ impl Heap {
 impl Eq for Heap {}
 impl PartialEq<Self> for Heap {
     fn eq(&self, other: &Self) -> bool {
-        self.len() == other.len() && self.iter().zip(other.iter()).all(|(x, y)| x == y)
+        // The internal order of a heap depends on its history, so compare just the elements, each as many times as it occurs
+        let mut unmatched: Vec<&_> = other.iter().collect();
+        self.len() == other.len() && self.iter().all(|x| match unmatched.iter().position(|y| x == *y) {
+            Some(index) => {
+                unmatched.swap_remove(index);
+                true
+            },
+            None => false
+        })
     }
 }
 
@@ -240,8 +243,6 @@ impl Ord for Heap {
 
 impl Hash for Heap {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for v in &self.heap {
-            v.hash(state)
-        }
+        state.write_u64(hash_unordered(self.heap.iter()))
     }
 }
\ No newline at end of file
-- 
2.43.0


From d5d5ec286c5fb8f4c25d0ca76ae77861f6f5bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 37/76] fix: reversed iteration of an enumerate() was empty or
 swapped, so rfind() and rindex_of() failed

---
 cordy-sys/src/vm/value/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 9c3229d..71f8c42 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -963,7 +963,14 @@ impl Iterator for IterableRev {
     type Item = ValuePtr;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.0 {
+        self.0.next_rev()
+    }
+}
+
+impl Iterable {
+    /// Returns the next element, iterating in reverse. This is only valid on the iterators produced by `reverse()`
+    fn next_rev(&mut self) -> Option<ValuePtr> {
+        match self {
             Iterable::Str(it) => it.next_back().map(|u| u.to_value()),
             Iterable::Unit(it) => it.take(),
             Iterable::Collection(index, it) => {
@@ -982,9 +989,9 @@ impl Iterator for IterableRev {
             }
             Iterable::Range(it, range) => range.next(it),
             Iterable::Enumerate(index, it) => {
-                let ret = (*it).next().map(|u| (u, index.to_value()).to_value());
-                *index += 1;
-                ret
+                // `it` has already been reversed, and `index` starts at the length
+                *index = index.saturating_sub(1);
+                it.next_rev().map(|u| (index.to_value(), u).to_value())
             },
         }
     }
-- 
2.43.0


From 61e9e600f30d4ea169542065a935ab9e9b6febae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:59 +0000
Subject: [PATCH 38/76] fix: library functions kept invoking their callback
 after it raised an error, and reported the last error

---
 cordy-sys/src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cordy-sys/src/util.rs b/cordy-sys/src/util.rs
index fcb4ab0..ab2cee8 100644
--- a/cordy-sys/src/util.rs
+++ b/cordy-sys/src/util.rs
@@ -19,10 +19,14 @@ pub fn strip_line_ending(buffer: &mut String) {
 }
 
 /// Used to wrap a function that might normally error, with one that passes the error up (i.e. outside of a closure), and returns a default to the inner function.
+/// Only the first error is caught - after which, the inner function will not be evaluated again.
 ///
 /// N.B. This did not work without specifying the types `Box<RuntimeError>` exactly. I do not know why.
 #[inline(always)]
 pub fn catch<T>(err: &mut Option<ErrorPtr>, f: impl FnOnce() -> ErrorResult<T>, default: T) -> T {
+    if err.is_some() {
+        return default; // An error has already occurred, so nothing else should be evaluated
+    }
     match f().branch() {
         ControlFlow::Continue(e) => e,
         ControlFlow::Break(Err(e)) => {
-- 
2.43.0


From b6ca5b3ad6c8c7ca205dd0d1b00540555a4b2c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 39/76] fix: char() of an integer beyond 32 bits returned an
 unrelated character

---
 cordy-sys/src/core/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 552065b..9d07224 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -195,7 +195,7 @@ pub fn chr(value: ValuePtr) -> ValueResult {
     if i <= 0 {
         return ValueErrorInvalidCharacterOrdinal(i).err()
     }
-    match char::from_u32(i as u32) {
+    match u32::try_from(i).ok().and_then(char::from_u32) {
         Some(c) => c.to_value().ok(),
         None => ValueErrorInvalidCharacterOrdinal(i).err()
     }
-- 
2.43.0


From c4158d04e98aa67ee4ae8aca9fafe676d26381e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 40/76] fix: a huge width in a format string crashed the
 interpreter

---
 cordy-sys/src/core/strings.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 9d07224..bfdb93c 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -295,7 +295,10 @@ impl<'a> StringFormatter<'a> {
                         }
                     }
 
-                    let padding: usize = if buffer.is_empty() { 0 } else { buffer.parse::<usize>().unwrap() };
+                    let padding: usize = if buffer.is_empty() { 0 } else { match buffer.parse::<usize>() {
+                        Ok(padding) if padding <= i32::MAX as usize => padding,
+                        _ => return ValueErrorValueWouldBeTooLarge.err()
+                    } };
 
                     let text = match (self.peek(), is_zero_padded) {
                         (Some('d'), false) => format!("{:width$}", self.arg()?.as_int_checked()?, width = padding),
-- 
2.43.0


From 51b98cb59ba6cbffa602e4cca0b45e4cc158ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 41/76] fix: int(), hex(), and bin() of text beyond the 63-bit
 range of an int wrapped silently

---
 cordy-sys/src/core/math.rs    | 10 ++++++----
 cordy-sys/src/core/strings.rs |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/core/math.rs b/cordy-sys/src/core/math.rs
index 67222a3..701fab4 100644
--- a/cordy-sys/src/core/math.rs
+++ b/cordy-sys/src/core/math.rs
@@ -17,10 +17,12 @@ pub fn convert_to_int(target: ValuePtr, default: Option<ValuePtr>) -> ValueResul
         Type::Bool => target.as_int().to_value().ok(),
         Type::Int => target.ok(),
         Type::ShortStr | Type::LongStr => match target.as_str_slice().parse::<i64>() {
-            Ok(i) => i.to_value().ok(),
-            Err(err) => match default {
-                Some(a2) => a2.ok(),
-                None => ValueErrorCannotConvertStringToIntBadParse(target, err.to_string()).err(),
+            Ok(i) if ValuePtr::MIN_INT <= i && i <= ValuePtr::MAX_INT => i.to_value().ok(),
+            result => match (default, result) {
+                (Some(a2), _) => a2.ok(),
+                (None, Err(err)) => ValueErrorCannotConvertStringToIntBadParse(target, err.to_string()).err(),
+                // The value fits in a 64-bit integer, but not in a (63-bit) `int`
+                (None, Ok(i)) => ValueErrorCannotConvertStringToIntBadParse(target, String::from(if i < 0 { "number too small to fit in target type" } else { "number too large to fit in target type" })).err(),
             },
         },
         #[cfg(feature = "rational")]
diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index bfdb93c..0774a12 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -215,7 +215,7 @@ pub fn hex(value: ValuePtr) -> ValueResult {
     match value.ty() {
         Type::Int => format!("{:x}", value.as_precise_int()).to_value().ok(),
         Type::ShortStr | Type::LongStr => match i64::from_str_radix(value.as_str_slice(), 16).ok() {
-            Some(int) => int.to_value().ok(),
+            Some(int) if ValuePtr::MIN_INT <= int && int <= ValuePtr::MAX_INT => int.to_value().ok(),
             _ => TypeErrorCannotConvertToInt(value).err()
         },
         _ => TypeErrorArgMustBeIntOrStr(value).err()
@@ -226,7 +226,7 @@ pub fn bin(value: ValuePtr) -> ValueResult {
     match value.ty() {
         Type::Int => format!("{:b}", value.as_precise_int()).to_value().ok(),
         Type::ShortStr | Type::LongStr => match i64::from_str_radix(value.as_str_slice(), 2).ok() {
-            Some(int) => int.to_value().ok(),
+            Some(int) if ValuePtr::MIN_INT <= int && int <= ValuePtr::MAX_INT => int.to_value().ok(),
             _ => TypeErrorCannotConvertToInt(value).err()
         }
         _ => TypeErrorArgMustBeIntOrStr(value).err()
-- 
2.43.0


From cc85c8c6e770256d8da265e61c954df5906339a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 42/76] fix: optimizer merged a call of a native function
 without arguments, which is an error, into the call of its result

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 7d1440e..2b47393 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -196,7 +196,7 @@ impl Expr {
 
     fn is_partial(&self, nargs: usize) -> bool {
         match &self.1 {
-            ExprType::NativeFunction(f) => f.min_nargs() as usize > nargs,
+            ExprType::NativeFunction(f) => nargs > 0 && f.min_nargs() as usize > nargs, // N.B. calling a native function with no arguments is an error, not a partial evaluation
             _ => false
         }
     }
-- 
2.43.0


From 00dc375bbd53ffdc82c0d8c8ce2c2ce012f55920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 43/76] fix: optimizer reordered expressions which may both
 raise an error, changing which error was raised

---
 .../src/compiler/parser/expr/optimizer.rs     | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 2b47393..461db90 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -1,4 +1,4 @@
-use crate::compiler::parser::{Expr, ExprType, Parser, Traversable, Visitor};
+use crate::compiler::parser::{Expr, ExprType, LValueReference, Parser, Traversable, Visitor};
 use crate::core::NativeFunction;
 use crate::vm::{ErrorPtr, IntoValue, LiteralType, RuntimeError, ValuePtr};
 
@@ -164,6 +164,7 @@ impl Expr {
         match self.purity() {
             Purity::Strong => true,
             Purity::Weak => other.purity() != Purity::None,
+            Purity::Raises => other.purity() >= Purity::Weak,
             Purity::None => other.purity() == Purity::Strong,
         }
     }
@@ -171,12 +172,19 @@ impl Expr {
     fn purity(&self) -> Purity {
         match &self.1 {
             ExprType::Nil | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
-            ExprType::LValue(_) => Purity::Weak,
+            ExprType::LValue(lvalue) => match lvalue {
+                LValueReference::LateBinding(_) | LValueReference::ThisField { .. } => Purity::Raises, // It might not be declared yet, or might not have this field
+                _ => Purity::Weak,
+            },
 
-            ExprType::Unary(_, arg) => arg.purity(),
-            ExprType::Binary(_, lhs, rhs, _) | ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
-            ExprType::Literal(_, args) => args.iter().map(|u| u.purity()).min().unwrap_or(Purity::Strong),
-            ExprType::Unroll(arg) => arg.purity(),
+            ExprType::Unary(_, arg) => arg.purity().min(Purity::Raises),
+            ExprType::Binary(_, lhs, rhs, _) => lhs.purity().min(rhs.purity()).min(Purity::Raises),
+            ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
+            ExprType::Literal(ty, args) => args.iter().map(|u| u.purity()).min().unwrap_or(Purity::Strong).min(match ty {
+                LiteralType::List | LiteralType::Vector => Purity::Strong,
+                LiteralType::Set | LiteralType::Dict => Purity::Raises, // The elements might not be hashable
+            }),
+            ExprType::Unroll(arg) => arg.purity().min(Purity::Raises),
             ExprType::IfThenElse(condition, if_true, if_false) => condition.purity().min(if_true.purity()).min(if_false.purity()),
 
             ExprType::Call { unroll: true, .. } => Purity::None,
@@ -216,5 +224,12 @@ fn is_native_operator(expr: &Expr) -> bool {
 
 #[derive(Debug, Copy, Clone, Ord, PartialOrd, PartialEq, Eq)]
 enum Purity {
-    None, Weak, Strong
+    /// Might have side effects
+    None,
+    /// Has no side effects, but might read state which is modified by side effects, and might raise an error
+    Raises,
+    /// Has no side effects and can't raise an error, but might read state which is modified by side effects
+    Weak,
+    /// Does not depend on or modify any state, and can't raise an error
+    Strong
 }
\ No newline at end of file
-- 
2.43.0


From 4ca5bd61a79b1b46ccddfa916afb9cc579953a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 44/76] fix: optimizer inlined slices whose creation may raise
 an error past the evaluation of the sliced value

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 461db90..7465ec9 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -104,7 +104,8 @@ impl Visitor for Optimizer {
                     }
                 },
                 // Found `arg . [a:b:c]`. Inline into `arg[a:b:c]`
-                Expr(_, ExprType::SliceLiteral(a, b, c)) => match *c {
+                // This is only legal if creating the slice itself can't raise an error, as it would be raised before attempting to slice `arg`
+                Expr(_, ExprType::SliceLiteral(a, b, c)) if a.is_slice_index() && b.is_slice_index() && c.as_ref().as_ref().map_or(true, |c| c.is_slice_index()) => match *c {
                     Some(c) => arg.slice_step(loc, *a, *b, c),
                     None => arg.slice(loc, *a, *b),
                 },
@@ -202,6 +203,9 @@ impl Expr {
         }
     }
 
+    /// Returns `true` if this is a constant which is always legal to use as part of a slice
+    fn is_slice_index(&self) -> bool { matches!(self.1, ExprType::Nil | ExprType::Int(_)) }
+
     fn is_partial(&self, nargs: usize) -> bool {
         match &self.1 {
             ExprType::NativeFunction(f) => nargs > 0 && f.min_nargs() as usize > nargs, // N.B. calling a native function with no arguments is an error, not a partial evaluation
-- 
2.43.0


From 31fdf07750bf458c5b82a13860cabeafc79ae8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 45/76] fix: error reports mixed up byte and character
 positions, so errors in sources with non-ASCII text, and errors which span
 multiple lines, pointed to the wrong lines or columns

---
 cordy-sys/src/compiler/scanner.rs | 10 +++++-----
 cordy-sys/src/reporting.rs        |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index bfe1534..b167797 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -335,7 +335,7 @@ impl<'a> Scanner<'a> {
                                    None => {
                                        // Manually report this error at the source point, not at the destination point of the string
                                        // It makes it much easier to read.
-                                       self.push_err_at(start, 1, UnterminatedStringLiteral);
+                                       self.push_err_at(start - 1, UnterminatedStringLiteral);
                                        break
                                    }
                                }
@@ -408,7 +408,7 @@ impl<'a> Scanner<'a> {
                                        },
                                        Some(_) => {},
                                        None => {
-                                           self.push_err_at(start, 2, UnterminatedBlockComment);
+                                           self.push_err_at(start - 1, UnterminatedBlockComment);
                                            break
                                        }
                                    }
@@ -541,13 +541,13 @@ impl<'a> Scanner<'a> {
         });
     }
 
-    /// Reports an error at a given source point, not until the end. Used for 'unterminated' errors, as it makes them easier to read.
-    fn push_err_at(&mut self, start: usize, width: u32, error: ScanErrorType) {
+    /// Reports an error from a given source point until the end. Used for 'unterminated' errors, as it makes them easier to read.
+    fn push_err_at(&mut self, start: usize, error: ScanErrorType) {
         // Manually report this error at the source point, not at the destination point of the string
         // It makes it much easier to read.
         self.errors.push(ScanError {
             error,
-            loc: Location::new(start, (self.cursor - start) as u32 + width, self.index)
+            loc: Location::new(start, (self.cursor - start) as u32, self.index)
         });
     }
 
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 304f914..4eed332 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -170,7 +170,7 @@ impl SourceEntry {
         let mut end_lineno = start_lineno;
 
         if !loc.is_empty() {
-            while index.starts[end_lineno + 1] < loc.end() {
+            while end_lineno + 1 < index.lines.len() && index.starts[end_lineno + 1] <= loc.end() {
                 end_lineno += 1;
             }
         }
@@ -201,7 +201,7 @@ impl SourceEntry {
         }
 
         let (start_col, end_col) = if loc.is_empty() {
-            let last_col: usize = index.lines[end_lineno].len();
+            let last_col: usize = index.lines[end_lineno].chars().count();
             (last_col + 1, last_col + 3)
         } else {
             (loc.start - index.starts[start_lineno], loc.end() - index.starts[end_lineno])
@@ -229,7 +229,7 @@ impl SourceEntry {
         } else {
             // For multi-line errors, just point directly up across the entire bottom line
             let longest_line_len: usize = (start_lineno..=end_lineno)
-                .map(|u| index.lines[u].len())
+                .map(|u| index.lines[u].chars().count())
                 .max()
                 .unwrap();
             if longest_line_len > 0 {
@@ -250,7 +250,7 @@ impl SourceEntry {
             for line in self.text.split('\n') {
                 lines.push(String::from(line.strip_suffix('\r').unwrap_or(line)));
                 starts.push(start);
-                start += line.len() + 1;
+                start += line.chars().count() + 1; // Locations count characters, not bytes
             }
 
             starts.push(start);
-- 
2.43.0


From b18a16271efbe2f4932f8ca99f9102c4983869a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 46/76] fix: errors at the end of input were reported at the
 first line of the first source, instead of at the end of the input

---
 cordy-sys/src/compiler/parser/core/mod.rs |  6 +++---
 cordy-sys/src/compiler/parser/mod.rs      | 17 ++++++++++-------
 cordy-sys/src/compiler/scanner.rs         |  7 +++++--
 cordy-sys/src/reporting.rs                | 13 +++++--------
 4 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 1a003a4..a00ed98 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -167,7 +167,7 @@ impl<'a> Parser<'a> {
 
     /// Like `advance()` but returns the location of the advanced-by token.
     pub fn advance_with(&mut self) -> Location {
-        self.advance_both().map(|(loc, _)| loc).unwrap_or_else(Location::empty)
+        self.advance_both().map(|(loc, _)| loc).unwrap_or(self.end_location)
     }
 
     pub fn advance(&mut self) -> Option<ScanToken> {
@@ -347,12 +347,12 @@ impl<'a> Parser<'a> {
 
     /// Returns the source location of the previous token, aka the one just accepted.
     pub fn prev_location(&self) -> Location {
-        self.last_location.unwrap_or_else(Location::empty)
+        self.last_location.unwrap_or(self.end_location)
     }
 
     /// Returns the source location of the next token, aka the one in `peek()`
     pub fn next_location(&self) -> Location {
-        self.input.front().map(|&(loc, _)| loc).unwrap_or_else(Location::empty)
+        self.input.front().map(|&(loc, _)| loc).unwrap_or(self.end_location)
     }
 
     pub fn synthetic_name(&mut self) -> String {
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 91b1e92..3c45806 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -35,26 +35,26 @@ mod semantic;
 
 /// Create a default empty `CompileResult`. This is semantically equivalent to parsing an empty program, but will output nothing.
 pub fn default() -> CompileResult {
-    parse_rule(true, vec![], |_| ())
+    parse_rule(true, ScanResult { tokens: vec![], errors: vec![], end: Location::empty() }, |_| ())
 }
 
 
 /// Parse a complete `CompileResult` from the given `ScanResult`
 pub(super) fn parse(enable_optimization: bool, scan_result: ScanResult) -> CompileResult {
-    parse_rule(enable_optimization, scan_result.tokens, |parser| parser.parse())
+    parse_rule(enable_optimization, scan_result, |parser| parser.parse())
 }
 
 
 pub(super) fn parse_incremental(scan_result: ScanResult, params: &mut CompileParameters, rule: ParseRule) -> IndexSet<ParserError, FxBuildHasher> {
     let mut errors: IndexSet<ParserError, FxBuildHasher> = IndexSet::with_hasher(FxBuildHasher::default());
 
-    rule(&mut Parser::new(params.enable_optimization, scan_result.tokens, params.code, &mut errors, params.constants, params.patterns, params.globals, params.locations, params.fields, params.functions, params.locals, &mut Vec::new()));
+    rule(&mut Parser::new(params.enable_optimization, scan_result, params.code, &mut errors, params.constants, params.patterns, params.globals, params.locations, params.fields, params.functions, params.locals, &mut Vec::new()));
 
     errors
 }
 
 
-fn parse_rule(enable_optimization: bool, tokens: Vec<(Location, ScanToken)>, rule: fn(&mut Parser) -> ()) -> CompileResult {
+fn parse_rule(enable_optimization: bool, scan_result: ScanResult, rule: fn(&mut Parser) -> ()) -> CompileResult {
     let mut result = CompileResult {
         code: Vec::new(),
         errors: IndexSet::with_hasher(FxBuildHasher::default()),
@@ -69,7 +69,7 @@ fn parse_rule(enable_optimization: bool, tokens: Vec<(Location, ScanToken)>, rul
         locals: Vec::new(),
     };
 
-    rule(&mut Parser::new(enable_optimization, tokens, &mut result.code, &mut result.errors, &mut result.constants, &mut result.patterns, &mut result.globals, &mut result.locations, &mut result.fields, &mut result.functions, &mut Locals::empty(), &mut result.locals));
+    rule(&mut Parser::new(enable_optimization, scan_result, &mut result.code, &mut result.errors, &mut result.constants, &mut result.patterns, &mut result.globals, &mut result.locations, &mut result.fields, &mut result.functions, &mut Locals::empty(), &mut result.locals));
 
     result
 }
@@ -79,6 +79,8 @@ pub(super) struct Parser<'a> {
     enable_optimization: bool,
 
     input: VecDeque<(Location, ScanToken)>,
+    /// The location of the end of input, which has zero width
+    end_location: Location,
 
     /// Previous output, from invocations of the parser are taken as input here
     /// Output for this invocation of the parser is accumulated in `output`, and in the `code` field of `functions`.
@@ -146,7 +148,7 @@ impl Parser<'_> {
     fn new<'a, 'b : 'a>(
         enable_optimization: bool,
 
-        tokens: Vec<(Location, ScanToken)>,
+        scan_result: ScanResult,
         output: &'b mut Vec<Opcode>,
         errors: &'b mut IndexSet<ParserError, FxBuildHasher>,
 
@@ -163,7 +165,8 @@ impl Parser<'_> {
         Parser {
             enable_optimization,
 
-            input: tokens.into_iter().collect::<VecDeque<(Location, ScanToken)>>(),
+            end_location: scan_result.end,
+            input: scan_result.tokens.into_iter().collect::<VecDeque<(Location, ScanToken)>>(),
             raw_output: output,
             output: Code::new(),
             errors,
diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index b167797..6f4f315 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -23,7 +23,8 @@ pub fn scan(view: &SourceView) -> ScanResult {
     scanner.scan();
     ScanResult {
         tokens: scanner.tokens,
-        errors: scanner.errors
+        errors: scanner.errors,
+        end: Location::new(scanner.cursor, 0, scanner.index),
     }
 }
 
@@ -31,7 +32,9 @@ pub fn scan(view: &SourceView) -> ScanResult {
 #[derive(Debug, Clone)]
 pub struct ScanResult {
     pub tokens: Vec<(Location, ScanToken)>,
-    pub errors: Vec<ScanError>
+    pub errors: Vec<ScanError>,
+    /// The (empty) location of the end of input
+    pub end: Location,
 }
 
 
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 4eed332..c4398b7 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -45,6 +45,9 @@ impl BitOr for Location {
     type Output = Location;
 
     fn bitor(self, rhs: Self) -> Self::Output {
+        if self.is_empty() { return rhs; }
+        if rhs.is_empty() { return self; }
+
         debug_assert_eq!(self.index, rhs.index);
 
         let start = self.start.min(rhs.start);
@@ -55,13 +58,7 @@ impl BitOr for Location {
 
 impl BitOrAssign for Location {
     fn bitor_assign(&mut self, rhs: Self) {
-        debug_assert_eq!(self.index, rhs.index);
-
-        let start = self.start.min(rhs.start);
-        let end = self.end().max(rhs.end());
-
-        self.start = start;
-        self.width = (end - start + 1) as u32;
+        *self = *self | rhs;
     }
 }
 
@@ -166,7 +163,7 @@ impl SourceEntry {
         let mut text = error.as_error();
         let index: Ref<'_, SourceIndex> = self.index();
         let loc = error.location();
-        let start_lineno = self.lineno(loc).unwrap_or(0);
+        let start_lineno = index.starts.partition_point(|u| u <= &loc.start) - 1; // May be empty, e.g. an error at the end of input
         let mut end_lineno = start_lineno;
 
         if !loc.is_empty() {
-- 
2.43.0


From 2506f53d2b59967b900c036ba2f32d7b8970a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 47/76] fix: integer literals which do not fit an integer were
 silently wrapped

---
 cordy-sys/src/compiler/scanner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index 6f4f315..7860dce 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -6,6 +6,7 @@ use std::str::Chars;
 use crate::core::NativeFunction;
 use crate::reporting::{AsErrorWithContext, Location};
 use crate::SourceView;
+use crate::vm::ValuePtr;
 
 use self::ScanErrorType::{*};
 use self::ScanToken::{*};
@@ -522,6 +523,8 @@ impl<'a> Scanner<'a> {
         }
 
         match i64::from_str_radix(buffer.as_str(), radix) {
+            // Integers only have 63 bits. The absolute value of the minimum int is allowed, as it may be the operand of an unary minus
+            Ok(value) if !is_complex && value > -ValuePtr::MIN_INT => self.push_err(0, len, InvalidNumericValue(i8::from_str_radix("ff", 16).unwrap_err())),
             Ok(value) => self.push(len, if is_complex { ComplexLiteral(value) } else { IntLiteral(value) }),
             Err(e) => self.push_err(0, len, InvalidNumericValue(e))
         }
-- 
2.43.0


From d2c83a3bd17f914cb46f8bf0e0bd557dff86335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 48/76] fix: a call which is cut off after the open parenthesis
 was reported as an unexpected parenthesis, instead of an unexpected end of
 input

---
 cordy-sys/src/compiler/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 3c45806..88122cc 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1701,7 +1701,10 @@ impl Parser<'_> {
                     match self.peek2() {
                         Some(CloseParen) => expr = expr.call(self.advance_with() | self.advance_with(), vec![]),
                         Some(_) => expr = expr.call_with(self.parse_comma_expr()),
-                        _ => self.error_with(ExpectedCommaOrEndOfArguments),
+                        None => {
+                            self.advance(); // Consume `(`, as what is missing is after it
+                            self.error_with(ExpectedCommaOrEndOfArguments)
+                        },
                     }
                 },
                 Some(OpenSquareBracket) => {
-- 
2.43.0


From fa4f1b5b36b7c1882f454ec1e3762e3f9c302f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 49/76] fix: compiling a slice literal with an unrolled
 argument, or evaluating a dictionary literal with an unrolled value, crashed

---
 cordy-sys/src/compiler/parser/mod.rs | 30 ++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 88122cc..b629be7 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1517,6 +1517,7 @@ impl Parser<'_> {
                 return Expr::list(loc_start | loc_end, vec![arg]);
             },
             Some(Colon) => { // Slice with a first argument
+                let arg = self.check_slice_literal_arg(arg);
                 return self.parse_expr_1_slice_literal(loc_start, arg);
             },
             Some(Comma) => {}, // Don't consume the comma just yet
@@ -1545,7 +1546,7 @@ impl Parser<'_> {
                 let loc_end = self.advance_with();
                 return Expr::slice_literal(loc_start | loc_end, arg1, Expr::nil(), None);
             }
-            _ => self.parse_comma_expr_arg(), // As we consumed `:`, we require a second expression
+            _ => self.parse_expr_1_slice_literal_arg(), // As we consumed `:`, we require a second expression
         };
 
         // Consumed `[` <expression> `:` <expression> so far
@@ -1567,13 +1568,27 @@ impl Parser<'_> {
         // Consumed `[` <expression> `:` <expression> `:` so far
         let arg3: Expr = match self.peek() {
             Some(CloseSquareBracket) => Expr::nil(),
-            _ => self.parse_comma_expr_arg(),
+            _ => self.parse_expr_1_slice_literal_arg(),
         };
 
         self.expect(CloseSquareBracket);
         Expr::slice_literal(loc_start | self.prev_location(), arg1, arg2, Some(arg3))
     }
 
+    fn parse_expr_1_slice_literal_arg(&mut self) -> Expr {
+        let arg = self.parse_comma_expr_arg();
+        self.check_slice_literal_arg(arg)
+    }
+
+    /// Slice literals have a fixed number of arguments, so none of them can be unrolled
+    fn check_slice_literal_arg(&mut self, arg: Expr) -> Expr {
+        if arg.is_unroll() {
+            self.semantic_error_at(arg.0, UnrollNotAllowedInSlice);
+            return Expr::nil();
+        }
+        arg
+    }
+
     /// Parses either a `dict` or `set` literal.
     /// Literals default to being sets, unless a `:` is present in any entry. This means empty literals, and literals with only unrolled terms default to sets.
     fn parse_expr_1_dict_or_set_literal(&mut self) -> Expr {
@@ -1597,14 +1612,14 @@ impl Parser<'_> {
                 match is_dict {
                     Some(true) => {
                         self.expect(Colon);
-                        args.push(self.parse_comma_expr_arg());
+                        args.push(self.parse_expr_1_dict_value());
                     },
                     Some(false) => {}, // Set does not have any `:` arguments
                     None => { // Still undetermined if it is a dict, or set -> based on this argument we can know definitively
                         is_dict = Some(match self.peek() { // Found a `:`, so we know this is now a dict
                             Some(Colon) => {
                                 self.advance();
-                                args.push(self.parse_comma_expr_arg());
+                                args.push(self.parse_expr_1_dict_value());
                                 true
                             },
                             _ => false,
@@ -1623,6 +1638,13 @@ impl Parser<'_> {
         if is_dict.unwrap_or(false) { Expr::dict(loc, args) } else { Expr::set(loc, args) }
     }
 
+    fn parse_expr_1_dict_value(&mut self) -> Expr {
+        if let Some(Ellipsis) = self.peek() { // The value in a single key-value pair cannot be unrolled
+            self.error_with(ExpectedExpressionTerminal);
+        }
+        self.parse_comma_expr_arg()
+    }
+
     fn parse_inline_if_then_else(&mut self) -> Expr {
         trace::trace_parser!("rule <expr-1-inline-if-then-else>");
 
-- 
2.43.0


From 5a08be899aed0ef42ca4b054a9f82790ed65a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 50/76] fix: an invalid numeric prefix at the start of the
 source crashed with overflow checks enabled

---
 cordy-sys/src/compiler/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index 7860dce..0194723 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -543,7 +543,7 @@ impl<'a> Scanner<'a> {
     fn push_err(&mut self, offset: usize, width: usize, error: ScanErrorType) {
         self.errors.push(ScanError {
             error,
-            loc: Location::new(self.cursor - width + offset, width as u32, self.index)
+            loc: Location::new(self.cursor + offset - width, width as u32, self.index)
         });
     }
 
-- 
2.43.0


From 8ee59596818ae3a372afa100efb7ff6183200e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 51/76] fix: indexing a list with itself as the index function
 crashed

---
 cordy-sys/src/vm/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 495d120..bae81f6 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -804,11 +804,14 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                 }
                 let arg = self.pop();
                 let func = self.pop();
-                let list = func.as_list().borrow();
-                if list.len() != 1 {
-                    return ValueErrorEvalListMustHaveUnitLength(list.len()).err()
-                }
-                let index = list[0].clone();
+                let index = {
+                    // The list must not be borrowed while indexing, as it may also be (a part of) the value being indexed
+                    let list = func.as_list().borrow();
+                    if list.len() != 1 {
+                        return ValueErrorEvalListMustHaveUnitLength(list.len()).err()
+                    }
+                    list[0].clone()
+                };
                 let result = core::get_index(self, &arg, index)?;
                 self.push(result);
                 Ok(FunctionType::Native)
-- 
2.43.0


From 9792f5bc60a81b261e94e5711feec4bf63037701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:43 +0000
Subject: [PATCH 52/76] fix: print or vector, used as a function of two
 arguments by reduce, sort_by, min_by or max_by, crashed

---
 cordy-sys/src/core/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 13fcbf7..32a1fb6 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -634,8 +634,8 @@ impl InvokeArg2 {
         match f.ty() {
             Type::Function | Type::Closure | Type::PartialFunction | Type::List | Type::Slice | Type::StructType | Type::GetField | Type::Memoized => Ok(InvokeArg2::User(f)),
             Type::NativeFunction => match f.as_native().info().arg {
-                Arg1To2 | Arg1To3 | Arg2 | Unique => Ok(InvokeArg2::Native(f.as_native())),
-                Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
+                Arg1To2 | Arg1To3 | Arg2 => Ok(InvokeArg2::Native(f.as_native())),
+                Iter | Unique | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
                 Arg3 => Ok(InvokeArg2::Arg3Par1(f.as_native())),
                 Arg0 | Arg0To1 | Arg1 => IncorrectArgumentsNativeFunction(f.as_native(), 2).err(),
                 Invalid => ValueIsNotFunctionEvaluable(f).err(),
-- 
2.43.0


From 33ffb3bcb741348eee8eb9a10a176f9a45f538c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:36 +0000
Subject: [PATCH 53/76] fix: group_by with a huge group size, and map, filter,
 flat_map, zip, group_by or counter of a huge range, crashed

---
 cordy-sys/src/core/collections.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 9f57826..63ba9e7 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -12,6 +12,12 @@ use crate::core::NativeFunction::{Combinations, Max, MaxBy, Min, MinBy, Peek, Pe
 
 use RuntimeError::{*};
 
+/// Sizes given by the user, and lengths of i.e. `range()`, may be much larger than the number of elements which are ever stored.
+/// So they are bounded, before being used to allocate an initial capacity
+fn bounded_capacity(size: usize) -> usize {
+    size.min(1 << 16)
+}
+
 
 pub fn get_index<VM : VirtualInterface>(vm: &mut VM, target: &ValuePtr, index: ValuePtr) -> ValueResult {
     if target.is_dict() {
@@ -269,13 +275,13 @@ pub fn group_by<VM : VirtualInterface>(vm: &mut VM, by: ValuePtr, args: ValuePtr
                 return ValueErrorValueMustBePositive(i).err()
             }
             let size: usize = i as usize;
-            let mut groups: VecDeque<ValuePtr> = VecDeque::with_capacity(1 + iter.len() / size); // Accurate guess
-            let mut group: Vec<ValuePtr> = Vec::with_capacity(size);
+            let mut groups: VecDeque<ValuePtr> = VecDeque::with_capacity(bounded_capacity(1 + iter.len() / size)); // Accurate guess
+            let mut group: Vec<ValuePtr> = Vec::with_capacity(bounded_capacity(size));
             for value in iter {
                 group.push(value);
                 if group.len() == size {
                     groups.push_back(group.to_value());
-                    group = Vec::with_capacity(size);
+                    group = Vec::with_capacity(bounded_capacity(size));
                 }
             }
             if !group.is_empty() {
@@ -287,12 +293,12 @@ pub fn group_by<VM : VirtualInterface>(vm: &mut VM, by: ValuePtr, args: ValuePtr
             // Otherwise, we assume this is a group_by(f), in which case we assume the function to be a item -> key, and create a dictionary of keys -> vector of values
             // For capacity, we guess that we're halving. That seems to be a reasonable compromise between overestimating, and optimal values.
             let size = iter.len();
-            let mut groups: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(size / 2, FxBuildHasher::default());
+            let mut groups: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(bounded_capacity(size / 2), FxBuildHasher::default());
             let by: InvokeArg1 = InvokeArg1::from(by)?;
             for value in iter {
                 let key = by.invoke(value.clone(), vm)?;
                 groups.entry(key)
-                    .or_insert_with(|| Vec::with_capacity(size / 4).to_value()) // Rough guess
+                    .or_insert_with(|| Vec::with_capacity(bounded_capacity(size / 4)).to_value()) // Rough guess
                     .as_vector() // This is safe because we should only have vectors in the map
                     .borrow_mut()
                     .push(value);
@@ -356,7 +362,7 @@ fn predicate<VM : VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr, is
 
 pub fn map<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) -> ValueResult {
     let len: usize = args.len().unwrap_or(0);
-    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(len);
+    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(bounded_capacity(len));
     let f: InvokeArg1 = InvokeArg1::from(f)?;
     for r in args.to_iter()? {
         acc.push_back(f.invoke(r, vm)?);
@@ -366,7 +372,7 @@ pub fn map<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) -> Va
 
 pub fn filter<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) -> ValueResult {
     let len: usize = args.len().unwrap_or(0);
-    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(len);
+    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(bounded_capacity(len));
     let f: InvokeArg1 = InvokeArg1::from(f)?;
     for r in args.to_iter()? {
         let ret = f.invoke(r.clone(), vm)?;
@@ -379,7 +385,7 @@ pub fn filter<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) ->
 
 pub fn flat_map<VM>(vm: &mut VM, f: Option<ValuePtr>, args: ValuePtr) -> ValueResult where VM : VirtualInterface {
     let len: usize = args.len().unwrap_or(0);
-    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(len);
+    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(bounded_capacity(len));
     let f: Option<InvokeArg1> = match f {
         Some(f) => Some(InvokeArg1::from(f)?),
         None => None,
@@ -407,7 +413,7 @@ pub fn zip(args: impl Iterator<Item=ValuePtr>) -> ValueResult {
         .map(|u| u.len())
         .min()
         .unwrap_or(0);
-    let mut acc = VecDeque::with_capacity(size);
+    let mut acc = VecDeque::with_capacity(bounded_capacity(size));
     loop {
         let mut vec = Vec::with_capacity(iters.len());
         for iter in &mut iters {
@@ -690,7 +696,7 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
 
 pub fn counter(it: ValuePtr) -> ValueResult {
     let iter = it.to_iter()?;
-    let mut counter: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(iter.len(), FxBuildHasher::default());
+    let mut counter: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(bounded_capacity(iter.len()), FxBuildHasher::default());
     for elem in iter {
         counter.entry(elem)
             .and_modify(|e| {
-- 
2.43.0


From 78ecf4ab335af22df0e97e35209d1e462934f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:17 +0000
Subject: [PATCH 54/76] fix: combinations of a huge number of elements crashed

---
 cordy-sys/src/core/collections.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 63ba9e7..723d532 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -331,8 +331,12 @@ pub fn combinations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Combinations).err();
     }
-    args.to_iter()?
-        .combinations(n as usize)
+    let iter = args.to_iter()?;
+    let n = n as usize;
+    if n > iter.len() {
+        return VecDeque::new().to_value().ok() // There are none, and this must not allocate space for `n` elements
+    }
+    iter.combinations(n)
         .map(|u| u.to_value())
         .to_list()
         .ok()
-- 
2.43.0


From deefc79f70bd02b7aeef72e1631172019f404648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 55/76] fix: calling a memoized function with itself as an
 argument, or comparing it with itself afterwards, crashed

---
 cordy-sys/src/core/mod.rs     | 10 ++++++----
 cordy-sys/src/vm/value/mod.rs | 10 +++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 32a1fb6..9f26f5d 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -1101,11 +1101,13 @@ pub fn invoke_memoized<VM : VirtualInterface>(vm: &mut VM, nargs: u32) -> ValueR
     let ret: ValuePtr = vm.invoke_func(func, &args)?;
 
     // The above computation might've entered a value into the cache - so we have to go through `.entry()` again
-    return memoized.borrow_mut().cache
-        .entry(args)
+    // The cache is taken out for this, as the arguments may contain the memoized function itself, which cannot be mutably borrowed while being compared
+    let mut cache = std::mem::take(&mut memoized.borrow_mut().cache);
+    let ret: ValuePtr = cache.entry(args)
         .or_insert(ret)
-        .clone()
-        .ok();
+        .clone();
+    memoized.borrow_mut().cache = cache;
+    ret.ok()
 }
 
 
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 71f8c42..3e4ed8a 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -1001,12 +1001,20 @@ impl FusedIterator for Iterable {}
 impl FusedIterator for IterableRev {}
 
 
-#[derive(Eq, PartialEq, Debug, Clone)]
+#[derive(Debug, Clone)]
 pub struct MemoizedImpl {
     pub func: ValuePtr,
     pub cache: HashMap<Vec<ValuePtr>, ValuePtr, FxBuildHasher>
 }
 
+// The cache does not take part in equality, or hashing: it changes when the function is called, and may contain the function itself
+impl Eq for MemoizedImpl {}
+impl PartialEq for MemoizedImpl {
+    fn eq(&self, other: &Self) -> bool {
+        self.func == other.func
+    }
+}
+
 impl Hash for MemoizedImpl {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.func.hash(state)
-- 
2.43.0


From 3da130549f9ce3c03fbc0f0d8530c4f78b1c8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 56/76] fix: assertions which compare a parenthesized
 expression crashed the compiler

---
 cordy-sys/src/compiler/parser/codegen.rs | 13 ++++++++++++-
 cordy-sys/src/compiler/parser/mod.rs     |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index f5d4c85..199bcbf 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -55,6 +55,17 @@ impl<'a> Parser<'a> {
         self.emit_expr(expr);
     }
 
+    /// Emits both arguments of a binary operator, with optimizations (if enabled), but not the operator itself
+    pub fn emit_optimized_binary_op_args(&mut self, mut lhs: Expr, mut rhs: Expr, swap: bool) {
+        lhs = self.process_expr(lhs);
+        rhs = self.process_expr(rhs);
+        if self.enable_optimization {
+            lhs = self.optimize_expr(lhs);
+            rhs = self.optimize_expr(rhs);
+        }
+        self.emit_binary_op_args(lhs, rhs, swap);
+    }
+
     /// Processes and transforms expressions _prior_ to optimizing and emitting them. This is mainly to allow for
     /// transient expressions, like `Comma()`, to be transformed and validated into easier to work with expressions,
     /// from the view of the optimizer.
@@ -293,7 +304,7 @@ impl<'a> Parser<'a> {
         }
     }
 
-    pub fn emit_binary_op_args(&mut self, lhs: Expr, rhs: Expr, swap: bool) {
+    fn emit_binary_op_args(&mut self, lhs: Expr, rhs: Expr, swap: bool) {
         if swap {
             self.emit_expr(rhs);
             self.emit_expr(lhs);
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index b629be7..23b90d4 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1007,7 +1007,7 @@ impl Parser<'_> {
         // If we parse an expression that has a top-level compare operation, we use AssertCompare, which performs the comparison (and thus can report both sides of the assert value)
         let branch_type = match self.parse_expr() {
             Expr(_, ExprType::Binary(op @ (BinaryOp::Equal | BinaryOp::NotEqual | BinaryOp::GreaterThan | BinaryOp::GreaterThanEqual | BinaryOp::LessThan | BinaryOp::LessThanEqual), lhs, rhs, swap)) => {
-                self.emit_binary_op_args(*lhs, *rhs, swap);
+                self.emit_optimized_binary_op_args(*lhs, *rhs, swap);
                 BranchType::AssertCompare(CompareOp::from(op))
             }
             e => {
-- 
2.43.0


From 74456c0a7e67ec5d072d3fd6dd2db57ceb7e8fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:45 +0000
Subject: [PATCH 57/76] fix: after an error in the repl, following declarations
 referred to the wrong variables, and closures lost the variables they
 captured

---
 cordy-sys/src/compiler/parser/semantic.rs |  7 +++++++
 cordy-sys/src/repl.rs                     |  2 +-
 cordy-sys/src/vm/mod.rs                   | 19 +++++++++++++++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 2beed5a..79795a0 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -83,6 +83,13 @@ impl Locals {
         self.locals.len()
     }
 
+    /// Replaces the names of all locals starting from the given `index`, so they can no longer be referenced by name, and their names can be declared again.
+    pub(crate) fn discard_names(&mut self, index: usize) {
+        for local in self.locals.iter_mut().skip(index) {
+            local.name = Reference::Named(String::new());
+        }
+    }
+
     /// Returns the name of a local with the given `index`.
     pub(super) fn get_name(&self, index: usize) -> String {
         self.locals[index].name.clone().to_named()
diff --git a/cordy-sys/src/repl.rs b/cordy-sys/src/repl.rs
index 60c38cb..1d93b0b 100644
--- a/cordy-sys/src/repl.rs
+++ b/cordy-sys/src/repl.rs
@@ -115,7 +115,7 @@ impl<W: Write, F : FunctionInterface> Repl<W, F> {
         }
 
         self.vm.view_mut().push(String::from("<stdin>"), String::new());
-        self.vm.run_recovery(self.locals[0].len());
+        self.vm.run_recovery(&mut self.locals[0]);
         RunResult::Ok
     }
 }
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index bae81f6..c93f91a 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -226,10 +226,25 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
     }
 
     /// Recovers the VM into an operational state, in case previous instructions terminated in an error or in the middle of a function
-    pub fn run_recovery(&mut self, locals: usize) {
+    ///
+    /// `locals` is the current global declarations. Any that were not reached before an error, are discarded, so they may be declared again.
+    pub fn run_recovery(&mut self, locals: &mut Locals) {
+        // Any functions which outlive the error keep the values of variables they captured
+        for (index, upvalue) in self.open_upvalues.drain() {
+            if let Some(value) = self.stack.get(index) {
+                upvalue.set(UpValue::Closed(value.clone()));
+            }
+        }
+
+        // Global variables that were not yet declared keep their slot, so the locals still match the stack
+        locals.discard_names(self.global_count);
+        self.stack.truncate(self.global_count);
+        self.stack.resize(locals.len(), ValuePtr::nil());
+        self.global_count = locals.len();
+
         self.call_stack.truncate(1);
-        self.stack.truncate(locals);
         self.literal_stack.clear();
+        self.unroll_stack.clear();
         self.ip = self.code.len();
     }
 
-- 
2.43.0


From 0ca8dc244049098f55695d9975c720b0e96d6350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:04 +0000
Subject: [PATCH 58/76] fix: a method declared after a block, whose variables
 were captured out of order, crashed

---
 cordy-sys/src/compiler/parser/semantic.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 79795a0..35ee887 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1198,12 +1198,8 @@ impl<'a> Parser<'a> {
                     // Pop the local
                     self.current_locals_mut().locals.pop().unwrap();
 
-                    // And pop any matching upvalues
-                    if let Some(upvalue) = self.current_locals_mut().upvalues.last() {
-                        if upvalue.index == local_index && upvalue.is_local {
-                            self.current_locals_mut().upvalues.pop().unwrap();
-                        }
-                    }
+                    // And pop any matching upvalues. Note that these may be in any order, as they are in order of being captured
+                    self.current_locals_mut().upvalues.retain(|upvalue| !(upvalue.is_local && upvalue.index == local_index));
                 }
             }
         }
-- 
2.43.0


From 073becaa355e8c87f157bd3cae41cba860e2f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:21 +0000
Subject: [PATCH 59/76] fix: after a text failed to compile in eval, an
 interactive session kept parts of it, e.g. reported its unknown fields for
 the next input

---
 cordy-sys/src/compiler/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/mod.rs b/cordy-sys/src/compiler/mod.rs
index d0579db..bcf8ce6 100644
--- a/cordy-sys/src/compiler/mod.rs
+++ b/cordy-sys/src/compiler/mod.rs
@@ -85,8 +85,15 @@ pub fn incremental_compile(mut params: CompileParameters) -> IncrementalCompileR
 /// This is the API used to run an `eval()` statement.
 pub fn eval_compile(text: String, mut params: CompileParameters) -> AnyResult {
     params.view.push(String::from("<eval>"), text);
-    try_incremental_compile(&mut params, |parser| parser.parse_incremental_eval(), false)
-        .ok_or_runtime_error()
+
+    let state: CompileState = params.save();
+    let ret: IncrementalCompileResult = try_incremental_compile(&mut params, |parser| parser.parse_incremental_eval(), false);
+
+    if !ret.is_success() { // Revert staged changes, as the caller may continue after an error (i.e. in a REPL)
+        params.restore(state);
+    }
+
+    ret.ok_or_runtime_error()
 }
 
 
-- 
2.43.0


From 3606f6fd4ae5381fc9936317807a7cec118069e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:42 +0000
Subject: [PATCH 60/76] fix: highlighting of a line that continues text with
 non-ASCII characters crashed, or marked the wrong characters

---
 cordy-sys/src/syntax.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/syntax.rs b/cordy-sys/src/syntax.rs
index c70d7a7..d974d29 100644
--- a/cordy-sys/src/syntax.rs
+++ b/cordy-sys/src/syntax.rs
@@ -43,7 +43,8 @@ pub fn scan<Fmt : Formatter>(input: String, prefix: &String, fmt: &mut Fmt) {
 
     // The index of the next character of `chars` to be consumed
     // We start at the length of the `prefix`, so we don't output anything that occurred before the prefix
-    let mut index = prefix.len();
+    // N.B. Token locations are in characters, not bytes
+    let mut index = prefix.chars().count();
 
     for (loc, ty) in scan {
         if index > loc.end() {
-- 
2.43.0


From 5dbc871d5506de3f989ea56f27789cfdbba3b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 61/76] fix: read() and read_line() crashed on input which is
 not text, and reading removed every carriage return instead of those of line
 ends

---
 cordy-sys/src/core/mod.rs |  6 +++---
 cordy-sys/src/vm/mod.rs   | 20 ++++++++++++--------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 9f26f5d..cae522a 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -842,8 +842,8 @@ pub fn invoke_partial<VM : VirtualInterface>(f: &PartialNativeFunction, nargs: u
 
 fn invoke_arg0<VM : VirtualInterface>(f: NativeFunction, vm: &mut VM) -> ValueResult {
     match f {
-        Read => vm.read().to_value().ok(),
-        ReadLine => vm.read_line().to_value().ok(),
+        Read => vm.read(),
+        ReadLine => vm.read_line(),
         Print => {
             vm.println0();
             ValuePtr::nil().ok()
@@ -870,7 +870,7 @@ fn invoke_arg1<VM : VirtualInterface>(f: NativeFunction, a1: ValuePtr, vm: &mut
         ReadText => {
             let path = a1.as_str_checked()?;
             match fs::read_to_string::<&str>(path) {
-                Ok(text) => text.replace('\r', "").to_value().ok(),
+                Ok(text) => text.replace("\r\n", "\n").to_value().ok(),
                 Err(err) => IOError(err.to_string()).err(),
             }
         },
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index c93f91a..99957e6 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -121,8 +121,8 @@ pub trait VirtualInterface {
     fn println(&mut self, str: &str);
     fn print(&mut self, str: &str);
 
-    fn read_line(&mut self) -> String;
-    fn read(&mut self) -> String;
+    fn read_line(&mut self) -> ValueResult;
+    fn read(&mut self) -> ValueResult;
 
     fn get_envs(&self) -> ValuePtr;
     fn get_env(&self, name: &str) -> ValuePtr;
@@ -982,17 +982,21 @@ impl <R : BufRead, W : Write, F : FunctionInterface> VirtualInterface for Virtua
     fn println(&mut self, str: &str) { writeln!(&mut self.write, "{}", str).unwrap(); }
     fn print(&mut self, str: &str) { write!(&mut self.write, "{}", str).unwrap(); }
 
-    fn read_line(&mut self) -> String {
+    fn read_line(&mut self) -> ValueResult {
         let mut buf = String::new();
-        self.read.read_line(&mut buf).unwrap();
+        if let Err(err) = self.read.read_line(&mut buf) {
+            return IOError(err.to_string()).err()
+        }
         util::strip_line_ending(&mut buf);
-        buf
+        buf.to_value().ok()
     }
 
-    fn read(&mut self) -> String {
+    fn read(&mut self) -> ValueResult {
         let mut buf = String::new();
-        self.read.read_to_string(&mut buf).unwrap();
-        buf
+        if let Err(err) = self.read.read_to_string(&mut buf) {
+            return IOError(err.to_string()).err()
+        }
+        buf.replace("\r\n", "\n").to_value().ok()
     }
 
     fn get_envs(&self) -> ValuePtr {
-- 
2.43.0


From 57fc4097229936ad6b0b21846cda90e685775d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 62/76] fix: values were passed to and from native functions
 with the wrong calling convention and booleans read from uninitialised
 memory, and ERR did not take a message

---
 cordy/cordy.h    |  2 +-
 cordy/src/ffi.rs | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/cordy/cordy.h b/cordy/cordy.h
index 8a470a9..0aa0af9 100644
--- a/cordy/cordy.h
+++ b/cordy/cordy.h
@@ -82,7 +82,7 @@ typedef struct cordy_value_s {
 #define _VALUE(type, value_field, value) ((cordy_value_t) { .ty = type, .value_field = value })
 
 // Macros that construct a new cordy_value_t
-#define ERR(x) ERR(#x)
+#define ERR(x) _ERR(#x)
 #define _ERR(x) _VALUE(TY_ERR, str_value, x)
 #define NIL() _VALUE(TY_NIL, int_value, 0)
 #define BOOL(x) _VALUE(TY_BOOL, bool_value, x)
diff --git a/cordy/src/ffi.rs b/cordy/src/ffi.rs
index 48c256d..3373c4e 100644
--- a/cordy/src/ffi.rs
+++ b/cordy/src/ffi.rs
@@ -37,6 +37,7 @@ struct CordyValueArray {
 
 #[repr(C)]
 union CordyValueUnion {
+    bool: u8,
     int: i64,
     str: *const c_char,
     vec: CordyValueArray
@@ -174,7 +175,8 @@ fn from_value(value: CordyValue) -> ValueResult {
                 }.err()
             }
             CordyType::Nil => ValuePtr::nil().ok(),
-            CordyType::Bool => (value.value.int != 0).to_value().ok(),
+            // Only the first byte of a boolean is specified by C
+            CordyType::Bool => (value.value.bool != 0).to_value().ok(),
             CordyType::Int => value.value.int.to_value().ok(),
             CordyType::Str => {
                 // Strings are passed and give ownership to Cordy
@@ -203,7 +205,7 @@ fn from_value(value: CordyValue) -> ValueResult {
 /// Note that there are several invariants that **must** be checked by the caller, as errors are not handled:
 /// - The string provided must be valid UTF-8
 /// - Any allocations or null-byte issues must resolve
-fn cordy_api_str(str: *const c_char) -> CordyValue {
+extern "C" fn cordy_api_str(str: *const c_char) -> CordyValue {
     unsafe {
         let str = CStr::from_ptr(str).to_str().unwrap();
         let c_str = CString::new(str.as_bytes()).unwrap();
@@ -212,14 +214,14 @@ fn cordy_api_str(str: *const c_char) -> CordyValue {
     }
 }
 
-fn cordy_api_vec(capacity: usize) -> CordyValue {
+extern "C" fn cordy_api_vec(capacity: usize) -> CordyValue {
     let vec = Vec::with_capacity(capacity);
     let (ptr, len, capacity) = vec.into_raw_parts();
     CordyValue { ty: CordyType::Array, value: CordyValueUnion { vec: CordyValueArray { ptr, len, capacity } }}
 }
 
 /// Frees a `cordy_value_t`. The value should not be used after this.
-fn cordy_api_free(value: CordyValue) {
+extern "C" fn cordy_api_free(value: CordyValue) {
     match value.ty {
         CordyType::Str => {
             unsafe {
-- 
2.43.0


From 791f9e6be46f9176ff3975d3715da19fa118efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 63/76] fix: functions of a second native module were looked up
 in the first

---
 cordy-sys/src/compiler/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 23b90d4..ac09daf 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -390,6 +390,8 @@ impl Parser<'_> {
         self.advance(); // Consume `native`
         self.expect(KeywordModule);
 
+        // Types are identified by their instance type, so it must be unique even if native modules have no instances
+        let instance_type = self.declare_type();
         let constructor_type = self.declare_type();
         let module_name = self.begin_module(true); // Consumes name
 
@@ -408,7 +410,7 @@ impl Parser<'_> {
             }
         }
         self.expect_resync(CloseBrace);
-        self.end_module(u32::MAX, constructor_type);
+        self.end_module(instance_type, constructor_type);
     }
 
     fn parse_native_module_function(&mut self, constructor_type: u32, module_name: &str) {
-- 
2.43.0


From 663ef7418e3cdd999c32877b5056b7f04d31de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 64/76] fix: min, max, sum and other functions of at least one
 argument could not be used as keys of sort_by, min_by and max_by

---
 cordy-sys/src/core/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index cae522a..1b335b3 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -484,7 +484,7 @@ impl Argument {
     /// Returns the minimum amount of arguments needed to evaluate this function, where below this number it will return a partial function
     fn min_nargs(self) -> u32 {
         match self {
-            Arg1 | Arg1To2 | Arg1To3 => 1,
+            Arg1 | Arg1To2 | Arg1To3 | UniqueNonEmpty | IterNonEmpty => 1,
             Arg2 => 2,
             Arg3 => 3,
             _ => 0,
-- 
2.43.0


From 4e2bed47aa3a393f43b08074c74112fee21faaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 65/76] fix: copying a dictionary lost its default value

---
 cordy-sys/src/core/collections.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 723d532..ef17875 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -789,6 +789,10 @@ fn copy_recursive(it: &ValuePtr, objects: &mut HashMap<usize, ValuePtr, FxBuildH
                     .iter()
                     .map(|(key, value)| (copy_recursive(key, objects), copy_recursive(value, objects)))
                     .collect();
+                let default: Option<InvokeArg0> = match it.as_dict().borrow().get_default() {
+                    Some(InvokeArg0::Noop(value)) => Some(InvokeArg0::Noop(copy_recursive(value, objects))),
+                    default => default.clone(), // Functions are not within reach of `copy()`
+                };
                 let ptr = objects.get_mut(&it.as_ptr_value())
                     .unwrap(); // This should always exist in the map, since we only insert and just inserted this above
 
@@ -796,6 +800,9 @@ fn copy_recursive(it: &ValuePtr, objects: &mut HashMap<usize, ValuePtr, FxBuildH
                 for (key, value) in elements {
                     copy.insert(key, value);
                 }
+                if let Some(default) = default {
+                    copy.set_default(default);
+                }
 
                 ptr.clone()
             }
-- 
2.43.0


From 8d6c22c0a95230b53123acaf17c8e6b0ec84aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 66/76] fix: search stopped at the first empty match, and a
 regex which failed at runtime crashed search and was ignored by replace and
 split

---
 cordy-sys/src/core/strings.rs | 130 +++++++++++++---------------------
 cordy-sys/src/reporting.rs    |   1 +
 cordy-sys/src/vm/error.rs     |   1 +
 3 files changed, 53 insertions(+), 79 deletions(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 0774a12..3bbc0e4 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -1,10 +1,9 @@
-use std::iter::{FusedIterator, Peekable};
+use std::iter::Peekable;
 use std::str::Chars;
-use fancy_regex::{Captures, Matches, Regex};
+use fancy_regex::{Captures, Regex};
 
 use crate::core::InvokeArg1;
-use crate::util;
-use crate::vm::{ErrorPtr, ErrorResult, IntoIterableValue, IntoValue, Iterable, RuntimeError, Type, ValuePtr, ValueResult, VirtualInterface};
+use crate::vm::{ErrorResult, IntoIterableValue, IntoValue, Iterable, RuntimeError, Type, ValuePtr, ValueResult, VirtualInterface};
 
 use RuntimeError::{*};
 
@@ -32,46 +31,46 @@ pub fn trim(value: ValuePtr) -> ValueResult {
 
 pub fn replace<VM: VirtualInterface>(vm: &mut VM, pattern: ValuePtr, replacer: ValuePtr, target: ValuePtr) -> ValueResult {
     let regex: Regex = compile_regex(pattern)?;
-    let text = target.as_str_checked()?;
+    let text: &str = target.as_str_checked()?;
+    let mut replaced: String = String::with_capacity(text.len());
+    let mut end: usize = 0;
     if replacer.is_evaluable() {
         let replacer: InvokeArg1 = InvokeArg1::from(replacer)?;
-        let mut err = None;
-        let replaced: ValuePtr = regex.replace_all(text, |captures: &Captures| {
-            let arg: ValuePtr = as_result(captures);
-            util::catch::<String>(&mut err,
-                || Ok(String::from(replacer.invoke(arg, vm)?.as_str_checked()?)),
-                String::new())
-        }).to_value();
-        util::join::<ValuePtr, ErrorPtr, ValueResult>(replaced, err)
+        for captures in regex.captures_iter(text) {
+            let captures = check_regex(&regex, captures)?;
+            let full = captures.get(0).unwrap();
+
+            replaced.push_str(&text[end..full.start()]);
+            replaced.push_str(replacer.invoke(as_result(&captures), vm)?.as_str_checked()?);
+            end = full.end();
+        }
     } else {
-        regex.replace_all(text, replacer.as_str_checked()?)
-            .to_value()
-            .ok()
+        let replacer: &str = replacer.as_str_checked()?;
+        for captures in regex.captures_iter(text) {
+            let captures = check_regex(&regex, captures)?;
+            let full = captures.get(0).unwrap();
+
+            replaced.push_str(&text[end..full.start()]);
+            captures.expand(replacer, &mut replaced);
+            end = full.end();
+        }
     }
+    replaced.push_str(&text[end..]);
+    replaced.to_value().ok()
 }
 
 pub fn search(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
     let regex: Regex = compile_regex(pattern)?;
     let text: &str = target.as_str_checked()?;
 
-    let mut start: usize = 0;
-    std::iter::from_fn(move || {
-        match regex.captures_from_pos(text, start).unwrap() {
-            Some(captures) => {
-                let end = captures.get(0).unwrap().end();
-                if start == end {
-                    // If we match a zero-length group, this regex will run infinitely - so the only sensible way to handle this here is to abort
-                    // Regex captures are greedy by default, so this will trigger only,
-                    // - If we can *only* match an empty string, which will return nothing
-                    // - If we've already matched the whole string, and now are matching *against* an empty string, which will return the existing match
-                    return None
-                }
-                start = end;
-                Some(as_result(&captures))
-            },
-            None => None
+    let mut matches: Vec<ValuePtr> = Vec::new();
+    for captures in regex.captures_iter(text) {
+        let captures = check_regex(&regex, captures)?;
+        if !captures.get(0).unwrap().as_str().is_empty() { // Only non-empty matches are of interest
+            matches.push(as_result(&captures));
         }
-    }).to_list().ok()
+    }
+    matches.into_iter().to_list().ok()
 }
 
 pub fn split(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
@@ -84,11 +83,26 @@ pub fn split(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
     }
 
     let regex: Regex = compile_regex(pattern)?;
+    let text: &str = target.as_str_checked()?;
 
-    fancy_split(&regex, target.as_str_checked()?)
-        .map(|u| u.to_value())
-        .to_list()
-        .ok()
+    // For some reason the `fancy_regex` crate does not support `.split()`, but it does support `find_iter()`
+    let mut parts: Vec<ValuePtr> = Vec::new();
+    let mut end: usize = 0;
+    for matched in regex.find_iter(text) {
+        let matched = check_regex(&regex, matched)?;
+        parts.push(text[end..matched.start()].to_value());
+        end = matched.end();
+    }
+    parts.push(text[end..].to_value());
+    parts.into_iter().to_list().ok()
+}
+
+/// Evaluating a regex may fail at runtime, i.e. when it needs too many steps.
+fn check_regex<T>(regex: &Regex, result: fancy_regex::Result<T>) -> ErrorResult<T> {
+    match result {
+        Ok(it) => Ok(it),
+        Err(e) => ValueErrorCannotEvaluateRegex(String::from(regex.as_str()), e.to_string()).err()
+    }
 }
 
 fn as_result(captures: &Captures) -> ValuePtr {
@@ -124,48 +138,6 @@ fn escape_regex(raw: &str) -> String {
     result
 }
 
-/// For some reason the `fancy_regex` crate does not support `.split()`
-/// However, it does support `find_iter()`, so we just create the same extension to allow `Split` to work.
-/// This implementation is completely borrowed from the `re_unicode.rs` module in the `regex` crate, and adapted to use `Regex` from the `fancy-regex` crate.
-///
-/// `'r` is the lifetime of the compiled regular expression and `'t` is the lifetime of the string being split.
-fn fancy_split<'r, 't>(regex: &'r Regex, text: &'t str) -> FancySplit<'r, 't> {
-    FancySplit { finder: regex.find_iter(text), last: 0 }
-}
-
-#[derive(Debug)]
-struct FancySplit<'r, 't> {
-    finder: Matches<'r, 't>,
-    last: usize,
-}
-
-impl<'r, 't> Iterator for FancySplit<'r, 't> {
-    type Item = &'t str;
-
-    fn next(&mut self) -> Option<&'t str> {
-        let text = self.finder.text();
-        match self.finder.next() {
-            None => {
-                if self.last > text.len() {
-                    None
-                } else {
-                    let s = &text[self.last..];
-                    self.last = text.len() + 1; // Next call will return None
-                    Some(s)
-                }
-            }
-            Some(Ok(m)) => {
-                let matched = &text[self.last..m.start()];
-                self.last = m.end();
-                Some(matched)
-            },
-            _ => None
-        }
-    }
-}
-
-impl<'r, 't> FusedIterator for FancySplit<'r, 't> {}
-
 
 pub fn join(joiner: ValuePtr, it: ValuePtr) -> ValueResult {
     map_join(it.to_iter()?, joiner.as_str_checked()?).ok()
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index c4398b7..6304467 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -339,6 +339,7 @@ impl AsError for RuntimeError {
             ValueErrorMissingRequiredArgumentInStringFormatting => String::from("ValueError: Not enough arguments for format string"),
             ValueErrorEvalListMustHaveUnitLength(len) => format!("ValueError: Evaluating an index must have len = 1, got len = {}", len),
             ValueErrorCannotCompileRegex(raw, err) => format!("ValueError: Cannot compile regex '{}'\n            {}", raw, err),
+            ValueErrorCannotEvaluateRegex(raw, err) => format!("ValueError: Cannot evaluate regex '{}'\n            {}", raw, err),
             ValueErrorRecursiveHash => String::from("ValueError: Cannot create recursive hash-based collection"),
 
             TypeErrorUnaryOp(op, v) => format!("TypeError: Operator unary '{}' is not supported for type {}", op.as_error(), v.as_type_str()),
diff --git a/cordy-sys/src/vm/error.rs b/cordy-sys/src/vm/error.rs
index 8f9b76a..f98eeca 100644
--- a/cordy-sys/src/vm/error.rs
+++ b/cordy-sys/src/vm/error.rs
@@ -50,6 +50,7 @@ pub enum RuntimeError {
     ValueErrorMissingRequiredArgumentInStringFormatting,
     ValueErrorEvalListMustHaveUnitLength(usize),
     ValueErrorCannotCompileRegex(String, String),
+    ValueErrorCannotEvaluateRegex(String, String),
     ValueErrorRecursiveHash,
 
     TypeErrorUnaryOp(UnaryOp, ValuePtr),
-- 
2.43.0


From 7b290db223b6b54c48e23adbd4a051203659831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:46 +0000
Subject: [PATCH 67/76] fix: a function captured every variable that another
 function of the same block had captured, so it could keep itself alive

---
 cordy-sys/src/compiler/parser/mod.rs      |  4 +-
 cordy-sys/src/compiler/parser/semantic.rs | 57 +++++++----------------
 2 files changed, 18 insertions(+), 43 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index ac09daf..bfa4126 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -717,13 +717,13 @@ impl Parser<'_> {
 
         self.push(Return); // Must come before we pop locals
 
-        self.locals.pop().unwrap();
+        let locals: Locals = self.locals.pop().unwrap();
         self.function_depth -= 1;
         self.scope_depth -= 1;
 
         // If this function has captured any upvalues, we need to emit the correct tokens for them now, including wrapping the function in a closure
         // We just collect and return the opcodes for it, as if this is part of an expression function, we need to hold them to be emitted later
-        let closed_locals: Vec<Opcode> = self.current_locals().closed_locals();
+        let closed_locals: Vec<Opcode> = locals.closed_locals();
 
         self.delay_pop_from_expression_statement = prev_pop_status; // Exit the stack
 
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 35ee887..f10e2f0 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -52,7 +52,8 @@ pub struct Locals {
     /// The local variables in the current function.
     /// Top level local variables are considered global, even though they still might be block scoped ('true global' are top level function in no block scope, as they can never go out of scope).
     locals: Vec<Local>,
-    /// An array of captured upvalues for this function, either due to an inner function requiring them, or this function needing to capture locals from it's enclosing function
+    /// An array of captured upvalues for this function, which are all captured from the enclosing function. These are either due to this function, or an inner function requiring them.
+    /// If `is_local`, they are a local of the enclosing function, otherwise, they are an upvalue of the enclosing function.
     upvalues: Vec<UpValue>,
     /// Loop stack
     /// Each frame represents a single loop, which `break` and `continue` statements refer to
@@ -1197,9 +1198,6 @@ impl<'a> Parser<'a> {
                 if modify_lvt {
                     // Pop the local
                     self.current_locals_mut().locals.pop().unwrap();
-
-                    // And pop any matching upvalues. Note that these may be in any order, as they are in order of being captured
-                    self.current_locals_mut().upvalues.retain(|upvalue| !(upvalue.is_local && upvalue.index == local_index));
                 }
             }
         }
@@ -1388,47 +1386,24 @@ impl<'a> Parser<'a> {
     /// bubble up the upvalue through each of the enclosing functions between here and `self.function_depth`, and ensure the variable is added as an `UpValue`.
     fn resolve_upvalue(&mut self, local_depth: u32, local_index: u32, is_self: bool) -> LValueReference {
 
-        // Capture the local at index `local_index` in the function at `local_depth`
-        // If it already exists (is `is_local` and has the same `index` as the target), just grab the upvalue index, otherwise add it and bubble up
-        let mut maybe_index: Option<usize> = None;
-        for (i, upvalue) in self.locals[local_depth as usize].upvalues.iter().enumerate() {
-            if upvalue.index == local_index && upvalue.is_local {
-                maybe_index = Some(i);
-                break
-            }
-        }
-
-        // If we did not find it, then capture the local - add this as an upvalue to the function at this depth
-        let mut index = if let Some(index) = maybe_index {
-            index as u32
-        } else {
-            self.locals[local_depth as usize].upvalues.push(UpValue::new(true, local_index));
-            (self.locals[local_depth as usize].upvalues.len() - 1) as u32
-        };
-
-        // For any function depths between the enclosing function (self.function_depth - 1), and the function above where we referenced the local (local_depth + 1),
-        // we need to add this as an upvalue, referencing an upvalue one level down, to each depth.
-        for depth in local_depth + 1..self.function_depth {
-
-            // Only add it if we haven't found an upvalue with the same index and `!is_local` (which is unique).
-            let mut found: bool = false;
-            for (i, upvalue) in self.locals[depth as usize].upvalues.iter().enumerate() {
-                if upvalue.index == index && !upvalue.is_local {
-                    index = i as u32; // Update the index
-                    found = true; // And mark that we found an existing one
-                    break
+        // The function directly within the one at `local_depth` captures the local itself, and each function below that, up to and including the current function,
+        // captures the upvalue of the function which encloses it. Only add an upvalue to a function if it has not been captured by that function already.
+        let mut is_local: bool = true;
+        let mut index: u32 = local_index;
+        for depth in local_depth + 1..=self.function_depth {
+            let upvalues = &mut self.locals[depth as usize].upvalues;
+            index = match upvalues.iter().position(|upvalue| upvalue.index == index && upvalue.is_local == is_local) {
+                Some(position) => position as u32,
+                None => {
+                    upvalues.push(UpValue::new(is_local, index));
+                    (upvalues.len() - 1) as u32
                 }
-            }
-
-            // If we did not find an upvalue, then we must add one, referencing the upvalue from the outer function
-            if !found {
-                self.locals[depth as usize].upvalues.push(UpValue::new(false, index));
-                index = (self.locals[depth as usize].upvalues.len() - 1) as u32
-            }
+            };
+            is_local = false;
         }
 
         // Finally, the last value of `index` will be one set from the directly enclosing function
-        // We can thus return a `UpValue` reference, which contains the index of the upvalue in the enclosing function
+        // We can thus return a `UpValue` reference, which contains the index of the upvalue in the current function
         if is_self { LValueReference::UpValueThis(index) } else { LValueReference::UpValue(index) }
     }
 
-- 
2.43.0


From f988e6da57ed5fee2d969801c4e821d0b59dd1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 68/76] fix: a set or dictionary which could not be inserted
 into itself contained itself afterwards

---
 cordy-sys/src/vm/value/collections.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index c84dd35..d2f9227 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -78,9 +78,13 @@ impl Set {
     }
 
     pub fn insert_checked(&mut self, value: ValuePtr) -> AnyResult {
+        let len = self.set.len();
         match guard_recursive_hash(|| self.insert(value)) {
             false => Ok(()),
-            true => ValueErrorRecursiveHash.err()
+            true => {
+                self.set.truncate(len); // The value was inserted last, if it was inserted
+                ValueErrorRecursiveHash.err()
+            }
         }
     }
 }
@@ -136,9 +140,13 @@ impl Dict {
     }
 
     pub fn insert_checked(&mut self, key: ValuePtr, value: ValuePtr) -> AnyResult {
+        let len = self.dict.len();
         match guard_recursive_hash(|| self.insert(key, value)) {
             false => Ok(()),
-            true => ValueErrorRecursiveHash.err()
+            true => {
+                self.dict.truncate(len); // The key was inserted last, if it was inserted
+                ValueErrorRecursiveHash.err()
+            }
         }
     }
 
-- 
2.43.0


From e1cad15a46c3a8fdd72bf0617c25b98a58c3528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:01 +0000
Subject: [PATCH 69/76] fix: a dictionary with a default inserted itself as its
 own key, without an error

---
 cordy-sys/src/core/collections.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index ef17875..3c8e1a7 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -57,14 +57,14 @@ fn get_dict_index<VM : VirtualInterface>(vm: &mut VM, dict: &ValuePtr, key: Valu
     }
 
     // Invoke the new value supplier - this might modify the dict
-    // We go through the `.entry()` API again in this case
+    // So we need to check if the key has been inserted meanwhile
     let new_value: ValuePtr = default_factory.invoke(vm)?;
-    let mut dict = dict.borrow_mut();
+    if let Some(existing_value) = dict.borrow().get(&key) {
+        return existing_value.clone().ok()
+    }
 
-    dict.entry(key)
-        .or_insert(new_value)
-        .clone()
-        .ok()
+    dict.borrow_mut().insert_checked(key, new_value.clone())?;
+    new_value.ok()
 }
 
 pub fn set_index(target: &ValuePtr, index: ValuePtr, value: ValuePtr) -> AnyResult {
-- 
2.43.0


From 2b34747e5bdbea821464fb2fd73687fb60dcd89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:49 +0000
Subject: [PATCH 70/76] fix: removing from, intersecting, or pushing into a set
 or dictionary, a collection which contains it, crashed

---
 cordy-sys/src/core/collections.rs     | 24 ++++++++++++-------
 cordy-sys/src/vm/value/collections.rs | 34 +++++++++++----------------
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 3c8e1a7..d72c2b5 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -542,8 +542,16 @@ pub fn remove(needle: ValuePtr, target: ValuePtr) -> ValueResult {
         // `remove()` is not a particularly common op (`in` or access) is, so this is a fair tradeoff to make
         //
         // For reference, Python >=3.7 makes the same guarantee, see https://docs.python.org/3/reference/datamodel.html, 3.2.7.1
-        Type::Set => target.as_set().borrow_mut().shift_remove(&needle).to_value().ok(),
-        Type::Dict => target.as_dict().borrow_mut().shift_remove(&needle).is_some().to_value().ok(),
+        //
+        // The value is looked up first, as it may be, or contain, the `target`
+        Type::Set => {
+            let index = target.as_set().borrow().get_index_of(&needle);
+            index.and_then(|index| target.as_set().borrow_mut().shift_remove_index(index)).is_some().to_value().ok()
+        },
+        Type::Dict => {
+            let index = target.as_dict().borrow().get_index_of(&needle);
+            index.and_then(|index| target.as_dict().borrow_mut().shift_remove_index(index)).is_some().to_value().ok()
+        },
         _ => TypeErrorArgMustBeIterable(target).err(),
     }
 }
@@ -674,9 +682,9 @@ pub fn set_intersect(other: ValuePtr, this: ValuePtr) -> ValueResult {
             // this.intersect(other) := only keep elements of this that are also in other
             // Since we have just an iterator, we need to compute a set of `other`, then repeatedly check `contains()` for each element in `this`
             let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
-            let mut set = this.as_set().borrow_mut();
-            set.retain(|e| other.contains(e));
-            drop(set);
+            // Check all elements before the set is modified, as `other` may contain `this`
+            let mut retain = this.as_set().borrow().iter().map(|e| other.contains(e)).collect::<Vec<bool>>().into_iter();
+            this.as_set().borrow_mut().retain(|_| retain.next().unwrap());
             this.ok()
         },
         _ => TypeErrorArgMustBeSet(this).err()
@@ -689,9 +697,9 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
             // this.difference(other) := remove everything from this that is in other
             // Take the elements first, as `other` may be, or contain, `this`. Then remove them all at once, preserving the order of the rest
             let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
-            let mut set = this.as_set().borrow_mut();
-            set.retain(|e| !other.contains(e));
-            drop(set);
+            // Check all elements before the set is modified, as `other` may contain `this`
+            let mut retain = this.as_set().borrow().iter().map(|e| !other.contains(e)).collect::<Vec<bool>>().into_iter();
+            this.as_set().borrow_mut().retain(|_| retain.next().unwrap());
             this.ok()
         },
         _ => TypeErrorArgMustBeSet(this).err()
diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index d2f9227..18c249f 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -78,14 +78,9 @@ impl Set {
     }
 
     pub fn insert_checked(&mut self, value: ValuePtr) -> AnyResult {
-        let len = self.set.len();
-        match guard_recursive_hash(|| self.insert(value)) {
-            false => Ok(()),
-            true => {
-                self.set.truncate(len); // The value was inserted last, if it was inserted
-                ValueErrorRecursiveHash.err()
-            }
-        }
+        guard_recursive_hash(&value)?;
+        self.insert(value);
+        Ok(())
     }
 }
 
@@ -140,14 +135,9 @@ impl Dict {
     }
 
     pub fn insert_checked(&mut self, key: ValuePtr, value: ValuePtr) -> AnyResult {
-        let len = self.dict.len();
-        match guard_recursive_hash(|| self.insert(key, value)) {
-            false => Ok(()),
-            true => {
-                self.dict.truncate(len); // The key was inserted last, if it was inserted
-                ValueErrorRecursiveHash.err()
-            }
-        }
+        guard_recursive_hash(&key)?;
+        self.insert(key, value);
+        Ok(())
     }
 
     pub fn set_default(&mut self, default: InvokeArg0) {
@@ -199,12 +189,16 @@ thread_local! {
     static FLAG_RECURSIVE_HASH: Cell<bool> = Cell::new(false);
 }
 
-/// Returns `true` if a recursive hash error occurred.
+/// Returns an error if the value contains a collection which is being modified, so cannot be inserted into it.
+/// Must be checked before the insertion itself, which would compare the value with others of the same (incomplete) hash.
 #[inline]
-fn guard_recursive_hash<T, F : FnOnce() -> T>(f: F) -> bool {
+fn guard_recursive_hash(value: &ValuePtr) -> AnyResult {
     FLAG_RECURSIVE_HASH.with(|cell| cell.set(false));
-    f();
-    FLAG_RECURSIVE_HASH.with(|cell| cell.get())
+    FxBuildHasher::default().hash_one(value);
+    match FLAG_RECURSIVE_HASH.with(|cell| cell.get()) {
+        false => Ok(()),
+        true => ValueErrorRecursiveHash.err()
+    }
 }
 
 
-- 
2.43.0


From c597967b7f89bf840d1bb76611400dfb06bcc5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:23 +0000
Subject: [PATCH 71/76] fix: heaps which contain themselves crashed when they
 were modified or copied

---
 cordy-sys/src/core/collections.rs | 43 ++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index d72c2b5..6d51cee 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -463,7 +463,7 @@ pub fn pop(target: ValuePtr) -> ValueResult {
         Type::List => target.as_list().borrow_mut().pop_back(),
         Type::Set => target.as_set().borrow_mut().pop(),
         Type::Dict => target.as_dict().borrow_mut().pop().map(|u| u.to_value()),
-        Type::Heap => target.as_heap().borrow_mut().pop().map(|t| t.0),
+        Type::Heap => with_heap(&target, |heap| heap.pop()).map(|t| t.0),
         _ => return TypeErrorArgMustBeIterable(target).err()
     } {
         Some(v) => v.ok(),
@@ -485,12 +485,20 @@ pub fn push(value: ValuePtr, target: ValuePtr) -> ValueResult {
             Ok(_) => {},
             Err(e) => return ValueResult::from(e),
         }
-        Type::Heap => target.as_heap().borrow_mut().push(Reverse(value)),
+        Type::Heap => with_heap(&target, |heap| heap.push(Reverse(value))),
         _ => return TypeErrorArgMustBeIterable(target).err()
     }
     target.ok()
 }
 
+/// Modifies the heap `target` outside of it, as this compares elements, and these may be, or contain, the `target`
+fn with_heap<T>(target: &ValuePtr, f: impl FnOnce(&mut BinaryHeap<Reverse<ValuePtr>>) -> T) -> T {
+    let mut heap = std::mem::take(&mut **target.as_heap().borrow_mut());
+    let ret = f(&mut heap);
+    **target.as_heap().borrow_mut() = heap;
+    ret
+}
+
 pub fn push_front(value: ValuePtr, target: ValuePtr) -> ValueResult {
     target.as_list_checked()?.borrow_mut().push_front(value);
     target.ok()
@@ -734,9 +742,6 @@ fn copy_recursive(it: &ValuePtr, objects: &mut HashMap<usize, ValuePtr, FxBuildH
 
     macro_rules! copy_collection {
         ($as_T:ident, $insert:ident, $default:expr) => {
-            copy_collection!($as_T, $insert, $default, copy_recursive, ValuePtr)
-        };
-        ($as_T:ident, $insert:ident, $default:expr, $copy:ident, $elem_ty:ty) => {
             match objects.entry(it.as_ptr_value()) {
                 Entry::Occupied(e) => e.get().clone(), // If the object already exists, copy it directly
                 Entry::Vacant(e) => {
@@ -746,10 +751,10 @@ fn copy_recursive(it: &ValuePtr, objects: &mut HashMap<usize, ValuePtr, FxBuildH
                     // 3. insert all children in order into the copied collection
                     e.insert($default.to_value());
 
-                    let elements: Vec<$elem_ty> = it.$as_T()
+                    let elements: Vec<ValuePtr> = it.$as_T()
                         .borrow()
                         .iter()
-                        .map(|e| $copy(&e, objects))
+                        .map(|e| copy_recursive(&e, objects))
                         .collect();
                     let ptr = objects.get_mut(&it.as_ptr_value())
                         .unwrap(); // This should always exist in the map, since we only insert and just inserted this above
@@ -780,7 +785,25 @@ fn copy_recursive(it: &ValuePtr, objects: &mut HashMap<usize, ValuePtr, FxBuildH
         List => copy_collection!(as_list, push_back, VecDeque::new()),
         Vector => copy_collection!(as_vector, push, Vec::new()),
         Set => copy_collection!(as_set, insert, IndexSet::with_hasher(FxBuildHasher::default())),
-        Heap => copy_collection!(as_heap, push, BinaryHeap::new(), copy_recursive_rev, Reverse<ValuePtr>),
+
+        // Heaps compare their elements when they are built, so this must be done outside of the copy, as it may be one of the elements
+        Heap => match objects.entry(it.as_ptr_value()) {
+            Entry::Occupied(e) => e.get().clone(), // If the object already exists, copy it directly
+            Entry::Vacant(e) => {
+                e.insert(BinaryHeap::new().to_value());
+
+                let elements: Vec<Reverse<ValuePtr>> = it.as_heap()
+                    .borrow()
+                    .iter()
+                    .map(|e| Reverse(copy_recursive(&e.0, objects)))
+                    .collect();
+                let ptr = objects.get(&it.as_ptr_value())
+                    .unwrap(); // This should always exist in the map, since we only insert and just inserted this above
+
+                with_heap(ptr, |heap| heap.extend(elements));
+                ptr.clone()
+            }
+        },
 
         // Dict is a bit different, and needs a custom implementation, as we need to copy *both* keys and values
         Dict => match objects.entry(it.as_ptr_value()) {
@@ -848,7 +871,3 @@ fn copy_recursive(it: &ValuePtr, objects: &mut HashMap<usize, ValuePtr, FxBuildH
         Iter | Error | Never => panic!("should not copy a synthetic type")
     }
 }
-
-fn copy_recursive_rev(it: &Reverse<ValuePtr>, objects: &mut HashMap<usize, ValuePtr, FxBuildHasher>) -> Reverse<ValuePtr> {
-    Reverse(copy_recursive(&it.0, objects)) // To support the `Reverse` boxing that heaps do
-}
\ No newline at end of file
-- 
2.43.0


From 2b51ec8392678d01eba5324a618a72c09724abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:35 +0000
Subject: [PATCH 72/76] fix: operators applied to a vector which contains
 itself overflowed the stack

---
 cordy-sys/src/reporting.rs   |  1 +
 cordy-sys/src/vm/error.rs    |  1 +
 cordy-sys/src/vm/operator.rs | 34 ++++++++++++++++++++++++++--------
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 6304467..3e12b65 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -341,6 +341,7 @@ impl AsError for RuntimeError {
             ValueErrorCannotCompileRegex(raw, err) => format!("ValueError: Cannot compile regex '{}'\n            {}", raw, err),
             ValueErrorCannotEvaluateRegex(raw, err) => format!("ValueError: Cannot evaluate regex '{}'\n            {}", raw, err),
             ValueErrorRecursiveHash => String::from("ValueError: Cannot create recursive hash-based collection"),
+            ValueErrorRecursiveVector => String::from("ValueError: Cannot apply an operator to a vector which contains itself"),
 
             TypeErrorUnaryOp(op, v) => format!("TypeError: Operator unary '{}' is not supported for type {}", op.as_error(), v.as_type_str()),
             TypeErrorBinaryOp(op, l, r) => format!("TypeError: Operator '{}' is not supported for arguments of type {} and {}", op.as_error(), l.as_type_str(), r.as_type_str()),
diff --git a/cordy-sys/src/vm/error.rs b/cordy-sys/src/vm/error.rs
index f98eeca..52b8ac9 100644
--- a/cordy-sys/src/vm/error.rs
+++ b/cordy-sys/src/vm/error.rs
@@ -52,6 +52,7 @@ pub enum RuntimeError {
     ValueErrorCannotCompileRegex(String, String),
     ValueErrorCannotEvaluateRegex(String, String),
     ValueErrorRecursiveHash,
+    ValueErrorRecursiveVector,
 
     TypeErrorUnaryOp(UnaryOp, ValuePtr),
     TypeErrorBinaryOp(BinaryOp, ValuePtr, ValuePtr),
diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 5d46047..eba2668 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -1,3 +1,4 @@
+use std::cell::RefCell;
 use std::collections::VecDeque;
 
 #[cfg(feature = "rational")] use rug::ops::Pow;
@@ -497,38 +498,55 @@ pub fn binary_bitwise_xor(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 type UnaryFn = fn(ValuePtr) -> ValueResult;
 type BinaryFn = fn(ValuePtr, ValuePtr) -> ValueResult;
 
+thread_local! {
+    /// The vectors (one of which may be absent, for a scalar) which an elementwise operator is currently applied to.
+    static ACTIVE_VECTORS: RefCell<Vec<(usize, usize)>> = const { RefCell::new(Vec::new()) };
+}
+
+/// Applies an elementwise operator, unless it is already being applied to the same vectors, which then contain themselves.
+fn guard_recursive_vector(lhs: Option<&ValuePtr>, rhs: Option<&ValuePtr>, f: impl FnOnce() -> ValueResult) -> ValueResult {
+    let vectors = (lhs.map_or(0, ValuePtr::as_ptr_value), rhs.map_or(0, ValuePtr::as_ptr_value));
+    if ACTIVE_VECTORS.with_borrow(|active| active.contains(&vectors)) {
+        return ValueErrorRecursiveVector.err()
+    }
+    ACTIVE_VECTORS.with_borrow_mut(|active| active.push(vectors));
+    let ret = f();
+    ACTIVE_VECTORS.with_borrow_mut(|active| active.pop());
+    ret
+}
+
 /// Helpers for `Vector` operations, which all apply elementwise
 pub fn apply_vector_unary(vector: ValuePtr, unary_op: UnaryFn) -> ValueResult {
-    vector.as_vector().borrow().iter()
+    guard_recursive_vector(Some(&vector), None, || vector.as_vector().borrow().iter()
         .map(|v| unary_op(v.clone()))
         .collect::<Result<Vec<ValuePtr>, ErrorPtr>>()?
         .to_value()
-        .ok()
+        .ok())
 }
 
 fn apply_vector_binary(lhs: ValuePtr, rhs: ValuePtr, binary_op: BinaryFn) -> ValueResult {
-    lhs.as_vector().borrow().iter()
+    guard_recursive_vector(Some(&lhs), Some(&rhs), || lhs.as_vector().borrow().iter()
         .zip(rhs.as_vector().borrow().iter())
         .map(|(l, r)| binary_op(l.clone(), r.clone()))
         .collect::<Result<Vec<ValuePtr>, ErrorPtr>>()?
         .to_value()
-        .ok()
+        .ok())
 }
 
 fn apply_vector_binary_scalar_lhs(scalar_lhs: ValuePtr, rhs: ValuePtr, binary_op: BinaryFn) -> ValueResult {
-    rhs.as_vector().borrow().iter()
+    guard_recursive_vector(None, Some(&rhs), || rhs.as_vector().borrow().iter()
         .map(|r| binary_op(scalar_lhs.clone(), r.clone()))
         .collect::<ErrorResult<Vec<ValuePtr>>>()?
         .to_value()
-        .ok()
+        .ok())
 }
 
 fn apply_vector_binary_scalar_rhs(lhs: ValuePtr, scalar_rhs: ValuePtr, binary_op: BinaryFn) -> ValueResult {
-    lhs.as_vector().borrow().iter()
+    guard_recursive_vector(Some(&lhs), None, || lhs.as_vector().borrow().iter()
         .map(|l| binary_op(l.clone(), scalar_rhs.clone()))
         .collect::<ErrorResult<Vec<ValuePtr>>>()?
         .to_value()
-        .ok()
+        .ok())
 }
 
 
-- 
2.43.0


From 221c270fda6e7e7c5d064256b47522b5d54aa0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:43 +0000
Subject: [PATCH 73/76] fix: late bound variables of a pattern were not bound,
 if another pattern is contained within it

---
 cordy-sys/src/compiler/parser/semantic.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index f10e2f0..b5c5eb8 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -570,9 +570,7 @@ impl LValue {
                 None
             }
             LValue::Terms(_) => {
-                let index = parser.patterns.len();
-                let pattern = self.build_pattern(parser, index);
-                let pattern_id = parser.declare_pattern(pattern);
+                let pattern_id = LValue::declare_terms(self.into_terms(), parser);
 
                 parser.push(ExecPattern(pattern_id));
                 parser.push(Pop); // Push the final pop
@@ -587,9 +585,18 @@ impl LValue {
     /// 2. The output will be handled as part of codegen, and thus does not need to emit code
     /// 3. This always returns the pattern index
     pub(super) fn emit_expression_destructuring(terms: Vec<LValue>, parser: &mut Parser) -> u32 {
+        LValue::declare_terms(terms, parser)
+    }
+
+    /// Declares a `Pattern` for the given terms. The index of the pattern is reserved first, as building it may declare other patterns,
+    /// i.e. within the index of an array, and any late bindings need to refer to the index of this pattern.
+    fn declare_terms(terms: Vec<LValue>, parser: &mut Parser) -> u32 {
         let index = parser.patterns.len();
+        let pattern_id = parser.declare_pattern(Pattern::new(0, false));
         let pattern = LValue::do_build_pattern(terms, parser, index);
-        parser.declare_pattern(pattern)
+
+        parser.patterns[index] = pattern;
+        pattern_id
     }
 
     fn build_pattern(self, parser: &mut Parser, pattern_index: usize) -> Pattern<ParserStoreOp> {
-- 
2.43.0


From a86958be899970f283ba5ddf642ddc891fc64ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:27 +0000
Subject: [PATCH 74/76] fix: a default value of a variadic parameter was
 accepted, and crashed when the function was called

---
 cordy-sys/src/compiler/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index bfa4126..3192975 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -582,6 +582,8 @@ impl Parser<'_> {
 
             // Default Arguments
             match self.peek() {
+                // The default value of a variadic parameter is always an empty vector
+                _ if params.variadic => {},
                 // Sugar for `= nil`, so mark this as a default argument
                 Some(QuestionMark) => {
                     self.advance(); // Consume `?`
@@ -592,7 +594,7 @@ impl Parser<'_> {
                     let expr: Expr = self.parse_default_argument(&mut params);
                     params.default_args.push(expr);
                 },
-                _ => if !params.variadic && !params.default_args.is_empty() {
+                _ => if !params.default_args.is_empty() {
                     self.semantic_error(NonDefaultParameterAfterDefaultParameter);
                 },
             }
-- 
2.43.0


From 939600e8a58b770bb790b1c32c29d330e59ec1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:27 +0000
Subject: [PATCH 75/76] fix: decorators on the same line were parsed as an
 argument of the previous decorator, and rejected

---
 cordy-sys/src/compiler/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 3192975..5a23076 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1826,7 +1826,7 @@ impl Parser<'_> {
                 Some(KeywordFn) if self.peek2() == Some(&OpenParen) => {
                     expr = self.parse_expr_2_bare_suffix(expr);
                 }
-                Some(KeywordNil | KeywordTrue | KeywordFalse | KeywordExit | IntLiteral(_) | ComplexLiteral(_) | StringLiteral(_) | At | KeywordIf) => {
+                Some(KeywordNil | KeywordTrue | KeywordFalse | KeywordExit | IntLiteral(_) | ComplexLiteral(_) | StringLiteral(_) | KeywordIf) => {
                     expr = self.parse_expr_2_bare_suffix(expr);
                 },
 
-- 
2.43.0


From 482e22fb8070cd6f822d7d4ef3f95bfa5cb56330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:27 +0000
Subject: [PATCH 76/76] fix: while decorators of a function ran, the name of
 the function referred to the decorator

---
 cordy-sys/src/compiler/parser/mod.rs | 51 ++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 5a23076..673a408 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -280,7 +280,7 @@ impl Parser<'_> {
             trace::trace_parser!("rule <statement>");
             match self.peek() {
                 Some(At) => self.parse_annotated_named_function(),
-                Some(KeywordFn) => self.parse_named_function(),
+                Some(KeywordFn) => { self.parse_named_function(); },
                 Some(KeywordReturn) => self.parse_return_statement(),
                 Some(KeywordLet) => self.parse_let_statement(),
                 Some(KeywordIf) => self.parse_if_statement(),
@@ -451,25 +451,55 @@ impl Parser<'_> {
     }
 
     fn parse_annotated_named_function(&mut self) {
-        trace::trace_parser!("rule <annotated-named-function");
+        trace::trace_parser!("rule <annotated-named-function>");
 
         self.push_delayed_pop();
-        self.advance(); // Consume `@`
-        self.parse_expression(); // The annotation body
+
+        let mut annotations: Vec<Expr> = Vec::new();
+        while let Some(At) = self.peek() {
+            self.advance(); // Consume `@`
+            annotations.push(self.parse_expr_11(false)); // The annotation body
+        }
+        let nargs = annotations.len();
+
         match self.peek() {
-            Some(At) => self.parse_annotated_named_function(),
-            Some(KeywordFn) => self.parse_named_function(),
+            Some(KeywordFn) if self.peek2() == Some(&OpenParen) => {
+                // The function is anonymous, so the annotations are just called with it
+                for annotation in annotations {
+                    self.emit_optimized_expr(annotation);
+                }
+                self.parse_named_function();
+                for _ in 0..nargs {
+                    self.push(Call(1, false)) // Evaluate the annotation
+                }
+            },
+            Some(KeywordFn) => {
+                // The name has to refer to the function, while the annotations are evaluated. So, this is `fn f() { ... }`, then `f = annotation(f)`
+                if let Some(name) = self.parse_named_function() {
+                    let loc = self.prev_location();
+                    let lvalue = self.resolve_reference(Reference::Named(name));
+                    for annotation in annotations {
+                        self.emit_optimized_expr(annotation);
+                    }
+                    self.push_load_lvalue(loc, lvalue.clone());
+                    for _ in 0..nargs {
+                        self.push_at(Call(1, false), loc) // Evaluate the annotation
+                    }
+                    self.push_store_lvalue(lvalue, loc, false);
+                    self.push_pop(1);
+                }
+            },
             _ => self.error_with(ExpectedAnnotationOrNamedFunction),
         }
-        self.push(Call(1, false)) // Evaluate the annotation
     }
 
-    fn parse_named_function(&mut self) {
+    /// Returns the name of the function, unless it was an anonymous function, in an expression statement.
+    fn parse_named_function(&mut self) -> Option<String> {
         // Before we enter this rule, we instead check if we see `fn` `(`, which would imply this is actually part of an expression
         // If so, we shortcut into that
         if let Some(OpenParen) = self.peek2() {
             self.parse_expression_statement();
-            return
+            return None
         }
 
         trace::trace_parser!("rule <named-function>");
@@ -485,11 +515,12 @@ impl Parser<'_> {
         // Note that we always declare the function here, to preserve parser operation in the event of a parse error
         self.declare_local(name.clone(), true);
 
-        let func: u32 = self.declare_function(name, &params);
+        let func: u32 = self.declare_function(name.clone(), &params);
         self.push(Constant(func));
 
         // Emit the closed locals from the function body right away, because we are not in an expression context
         self.parse_function_body_and_emit(params);
+        Some(name)
     }
 
     fn parse_expression_function(&mut self) -> Expr {
-- 
2.43.0

