//! C03: structured control flow. Every nesting of the control constructs up to a depth, every choice of a leaf, against
//! every schedule of condition outcomes up to a length.
use super::*;
use crate::engine::Ch;

pub const META: Meta = Meta { id: "C03", run, assumptions: &[
    "conditions are opaque: they are read from a schedule of booleans, and all schedules up to the stated length are explored; when the schedule is used up, the program exits",
] };

/// Generator of nested statements. `sep` separates statements.
pub struct G { pub sep: &'static str, pub k: u32, pub in_fn: bool, pub in_loop: bool, pub vars: bool }

const COMPOUND: &[&str] = &[
    "if q() { $A }", "if q() { $A } else { $B }", "if q() { $B } elif q() { $A } else { $C }", "if not q() { $B } elif q() { $A }",
    "loop { $L }", "while q() { $L }", "while q() { $L } else { $B }", "while q() { $M } else { $A }",
    "do { $L }", "do { $L } while q()", "do { $L } while q() else { $B }", "do { $M } while q() else { $A }",
    "for x in [7, 8] { $L }", "for x in 'ab' { $L } else { $B }", "for x in range(q() + 1) { $M } else { $A }", "for x in range(2) { $L }", "for _ in (1, 2, 3) { $L }", "for x, y in [(1, 2), (3, 4)] { $L }", "for x in {q(), 2} { $L } else { $B }",
    "fn f$K() { $F }@f$K()", "(fn() { $F })()", "let g$K = fn(z) { $F }@print('r', 1, g$K(2), 3)",
];

impl G {
    fn mark(&mut self) -> String { self.k += 1; format!("print({})", self.k) }
    /// A leaf that may transfer control
    fn leaf(&mut self, ch: &mut Ch) -> String {
        let mut xs = vec!["", "exit"];
        if self.in_loop { xs.extend(["break", "continue"]); }
        if self.in_fn { xs.extend(["return", "return 5 + q()", "return [x for x]"]); }
        let s = *ch.of(&xs);
        if s == "return [x for x]" { return "return".to_string() + if ch.flag() { " nil" } else { " 'r' + 's'" }; }
        if s.is_empty() { return self.mark(); }
        // possibly guarded, in each of the ways
        match ch.pick(4) { 0 => s.to_string(), 1 => format!("if q() {{ {} }}", s), 2 => format!("if q() {{ {} }} else {{ {} }}", self.mark(), s), _ => format!("do {{ let w{} = 9@{} }}", self.k, s).replace("@break", "@if q() { exit }").replace("@continue", "@if q() { exit }") }
    }
    pub fn block(&mut self, ch: &mut Ch, depth: usize) -> String {
        let k = self.k + 1;
        let a = self.mark();
        let inner = if depth == 0 { self.leaf(ch) } else { self.compound(ch, depth) };
        if self.vars { format!("let v{} = {}@{}@{}@print(v{})", k, k * 10, a, inner, k) } else { format!("{}@{}@print(-{})", a, inner, k) }
    }
    pub fn compound(&mut self, ch: &mut Ch, depth: usize) -> String {
        let t = *ch.of(COMPOUND);
        let saved = (self.in_fn, self.in_loop);
        let mut s = t.to_string();
        self.k += 1;
        s = s.replace("$K", &self.k.to_string());
        for (hole, sub, lp, f) in [("$L", true, true, false), ("$M", false, true, false), ("$A", true, false, false), ("$B", false, false, false), ("$C", false, false, false), ("$F", true, false, true)] {
            if !s.contains(hole) { continue; }
            if f { self.in_fn = true; self.in_loop = false; }
            if lp { self.in_loop = true; }
            let mut b = if sub { self.block(ch, depth - 1) } else { self.mark() };
            if hole == "$M" { b = format!("{}@if q() {{ break }}", b); }
            if hole == "$L" && (t.starts_with("loop") || t.starts_with("do")) { b = format!("if q() {{ exit }}@{}", b); }
            s = s.replace(hole, &b);
            (self.in_fn, self.in_loop) = saved;
        }
        s
    }
}

fn prelude(bits: &[bool]) -> String {
    let b: Vec<String> = bits.iter().map(|b| (*b as u32).to_string()).collect();
    format!("let bits = [{}], n = 0\nfn q() {{\n if n >= len(bits) {{ print('end'); exit }}\n n += 1\n bits[n - 1]\n}}\n", b.join(", "))
}

pub fn wrap(mode: usize, body: &str) -> String {
    match mode {
        0 => format!("{}@print('top')", body),
        1 => format!("fn main() {{ {} }}@print('m', main(), 'e')", body),
        2 => format!("fn main(p, q2) {{ let c = p + 1, d = q2@let h = fn() {{ c += 1@{}@print('c', c) }}@print([4, h(), 5])@print(p, q2, c, d) }}@main(1, 2)", body),
        _ => format!("struct T(u) {{ fn m(self) {{ u += 1@{}@u }} }}@let t = T(3)@print(t->m(), t)", body),
    }
}

fn run(cx: &mut Cx) {
    let bits_of = |ch: &mut Ch, n: usize| -> Vec<bool> { (0..n).map(|_| ch.flag()).collect() };
    let space = |cx: &mut Cx, name: &str, depth: usize, nbits: usize, modes: &[usize], seps: &[&'static str]| {
        cx.explore(name, |ch| {
            let mode = *ch.of(modes);
            let sep = *ch.of(seps);
            let mut g = G { sep, k: 0, in_fn: mode > 0, in_loop: false, vars: mode != 0 || depth < 3 };
            let body = g.block(ch, depth);
            let text = wrap(mode, &body);
            // only as many schedule positions as the program can look at
            let n = if text.contains("q()") { nbits } else { 0 };
            let bits = bits_of(ch, n);
            Some(prelude(&bits) + &text.replace('@', g.sep) + "\n")
        }, |cx, s| conform_src(cx, s, false, "control flow"));
    };
    if cx.thorough() {
        space(cx, "two nested constructs, all placements", 2, 6, &[0, 1, 2, 3], &["\n", "; "]);
        space(cx, "three nested constructs", 3, 3, &[0, 1], &["\n"]);
    } else {
        space(cx, "one construct, all placements", 1, 6, &[0, 1, 2, 3], &["\n", "; "]);
        space(cx, "two nested constructs", 2, 4, &[1], &["\n"]);
        space(cx, "two nested constructs, other placements", 2, 3, &[0, 2, 3], &["; "]);
    }

    // expression statements, blocks as values, last-expression results, early returns with pending values
    const E: &[&str] = &["q()", "if q() then 1 else 2", "if q() then 1 elif q() then 2 else 3", "do_()", "r1()", "r2()", "r3()", "[q(), r2()]", "if q() then r1() else r3()", "(fn(x) -> if x then q() else r2())(q())"];
    cx.explore("values of calls that leave early, inside pending expressions", |ch| {
        let (a, b) = (*ch.of(E), *ch.of(E));
        let bits = bits_of(ch, 4);
        let ctx = *ch.of(&["print(10, $a, 20, $b, 30)", "let x = [1, $a, [$b, 2]]; print(x)", "let x = {1: $a, 2: $b}; print(x)", "let x = 100, y = $a; x = (x, y, $b); print(x, y)", "for i in [$a, $b] { print(i, q()) }", "print((fn(u, v, w) -> [w, v, u])($a, 5, $b))", "if $a { print('t', $b) } else { print('f', $b) }"]);
        let defs = "fn do_() { do { let t = 1; q() } while q()\n 5 }\nfn r1() { for x in [1, 2, 3] { let y = x; if q() { return x + y } }\n 9 }\nfn r2() { let a = 1; while true { let b = 2; loop { let c = 3; if q() { return a + b + c } else { break } } ; if q() { break } }\n a }\nfn r3() { if q() { if q() { 1 } else { 2 } } else { return 3 } }\n";
        Some(prelude(&bits) + defs + &ctx.replace("$a", a).replace("$b", b) + "\n")
    }, |cx, s| conform_src(cx, s, false, "value of an early exit"));

    if cx.opt_compare { return; }
    // misplaced transfers are rejected at compile time; correctly placed ones are accepted
    const PLACES: &[(&str, bool, bool)] = &[("$", false, false), ("do { $ }", false, true), ("if true { $ }", false, false), ("loop { $; break }", false, true), ("while true { $; break }", false, true), ("while false { } else { $ }", false, false), ("for x in [1] { $ }", false, true), ("for x in [1] { } else { $ }", false, false),
        ("fn f() { $ }", true, false), ("loop { fn f() { $ }; break }", true, false), ("fn f() { loop { $; break } }", true, true), ("for x in [1] { let f = fn() { $ }; f }", true, false), ("fn f() { for x in [1] { if x { $ } } }", true, true), ("struct S() { fn f(self) { $ } }", true, false), ("module M { fn f() { $ } }", true, false), ("fn f() { fn g() { 1 }; $ }", true, false), ("do { $ } while false", false, true), ("fn f() { do { } while false else { $ } }", true, false)];
    cx.explore("placement of break, continue and return", |ch| {
        let (p, f, l) = *ch.of(PLACES);
        let kw = *ch.of(&["break", "continue", "return", "return 1", "exit"]);
        let legal = match kw { "break" | "continue" => l, "exit" => true, _ => f };
        Some((format!("print('go')\n{}\n", p.replace('$', kw)), legal))
    }, |cx, (src, legal)| {
        let i = if legal { Input::Compile { src, opt: false } } else { Input::Run { src, opt: false, stdin: String::new() } };
        if let Some(o) = cx.exec(&i) {
            cx.transitions += 1;
            let bad = if legal { o.end == End::Compile } else { o.end != End::Compile || !o.out.is_empty() };
            if bad { cx.fail(&i, "placement of break, continue, return", if legal { "accepted".into() } else { "a compile error and no output".into() }, &o); }
        }
    });
}
