//! C07: structs, methods and modules. Every pair of declarations over a small set of shared names, with every form of access.
use super::*;
use crate::engine::Ch;

pub const META: Meta = Meta { id: "C07", run, assumptions: &["two types per program over at most four shared names; methods are one expression or a few statements; nested struct declarations are not generated"] };

/// An ordered choice of at most `max` of the names
fn arrangement(ch: &mut Ch, names: &[&str], max: usize) -> Vec<String> {
    let mut left: Vec<&str> = names.to_vec();
    let mut v = Vec::new();
    let n = ch.pick(max.min(names.len()) + 1);
    for _ in 0..n { let k = ch.pick(left.len()); v.push(left.remove(k).to_string()); }
    v
}

fn args(n: usize, base: usize) -> String { (0..n).map(|k| format!("{}", base + k)).collect::<Vec<_>>().join(", ") }

fn run(cx: &mut Cx) {
    let names = ["f", "g", "h"];
    // (what is done with `X` at a use of name N)
    let uses = [
        "print(X->N)", "X->N = 7; print(X)", "X->N += 7; print(X)", "print(X->N = 'q'); print(X)", "print((->N)(X))", "print([X, X] . map(->N))", "print(X . (->N))",
        "fn w(o) { o->N = o->N + 1; o }\nprint(w(X))", "let r = X\nr->N = nil; print(X, r == X, r is typeof(X))", "X->N .= str; print(repr(X))", "X->N = 4, 5; print(X)", "X->N max= 100; print(X->N)",
        "for i in range(2) { X->N += i }\nprint(X)", "let q = (->N)\nprint(q(X), q is function)", "_, X->N = 1, 2; print(X)", "X->N = X; print(X->N->N is typeof(X))", "let k = fn() { X->N -= 1; X->N }\nprint(k(), k(), X)",
        "let u = copy(X)\nu->N = 0; print(X, u, X == u)", "print(try(X))", "X->N <<= 2; X->N |= 1; print(X); X->N %= 2; print(X)",
    ];
    cx.explore("fields of two types", |ch| {
        let a = arrangement(ch, &names, 3);
        let b = arrangement(ch, &names, 3);
        let n = *ch.of(&names);
        if !a.iter().chain(&b).any(|x| x == n) { return None; }
        let x = *ch.of(&["x", "y"]);
        let u = *ch.of(&uses);
        if u.contains("try(") { return None; }
        Some(format!("struct A({})\nstruct B({})\nlet x = A({}), y = B({})\nprint(x, y)\n{}\nprint(x, y)\n", a.join(", "), b.join(", "), if a.is_empty() { "".into() } else { args(a.len(), 1) }, args(b.len(), 10), u.replace("X", x).replace('N', n)))
    }, |cx, s| conform_src(cx, s, false, "field access"));
    cx.explore("fields of values of any type", |ch| {
        let v = *ch.of(&["nil", "1", "true", "'s'", "[1]", "(1, 2)", "{1}", "{1: 2}", "heap([1])", "print", "fn() -> 1", "range(2)", "2i", "A", "B", "A(1, 2)", "B(3)", "M", "A->s", "A(1, 2)->i", "M->s", "(->f)", "memoize(print)", "sum(1)", "A(1)", "B()"]);
        let n = *ch.of(&["f", "g", "h", "i", "s"]);
        let u = *ch.of(&["print(x->N)", "x->N = 9; print(x->N)", "x->N += 9; print(x->N)", "print((->N)(x))", "print(x->N())", "print(x->N(5))", "let q = x->N; print(q); print(q(4))", "print(x->N is function, x->N is any)"]);
        Some(format!("struct A(f, g) {{\n fn i(self) -> ('ai', f)\n fn s(k) -> ('as', k)\n}}\nstruct B(g) {{\n fn f(self) -> ('bf', g)\n fn h(k) -> ('bh', k)\n}}\nmodule M {{\n fn s(k) -> ('ms', k)\n fn g() -> 'mg'\n}}\nlet x = {}\nprint(x)\n{}\nprint(x)\n", v, u.replace('N', n)))
    }, |cx, s| conform_src(cx, s, false, "field access on any value"));
    // every assignment of roles to names in two types
    let t = cx.thorough();
    cx.explore("roles of shared names in two types, accessed from outside", |ch| {
        let nn: &[&str] = if t { &["f", "g", "h"] } else { &["f", "g"] };
        let mut decl = String::new();
        let mut any = std::collections::HashSet::new();
        let mut count = Vec::new();
        for (ty, module) in [("A", false), ("B", ch.flag())] {
            let mut fields = Vec::new();
            let mut methods = String::new();
            for n in nn {
                match ch.pick(5) {
                    0 => continue,
                    1 => if module { return None } else { fields.push(n.to_string()) },
                    2 => if module { return None } else { methods += &format!(" fn {}(self, k = 'd') -> ('{}{}', k)\n", n, ty, n) },
                    3 => methods += &format!(" fn {}(k) -> ('{}{}s', k)\n", n, ty, n),
                    _ => methods += &format!(" fn {}(k?, *v) -> ('{}{}v', k, v)\n", n, ty, n),
                }
                any.insert(*n);
            }
            if ch.flag() && !module { fields.reverse(); fields.push("z".into()); }
            if module { decl += &format!("module {} {{\n{}}}\n", ty, methods); } else { decl += &format!("struct {}({}) {{\n{}}}\n", ty, fields.join(", "), methods); }
            count.push(if module { None } else { Some(fields.len()) });
        }
        let n = *ch.of(nn);
        if !any.contains(n) { return None; }
        let recv = *ch.of(&["x", "A", "y", "B"]);
        if recv == "y" && count[1].is_none() { return None; }
        let u = *ch.of(&["print(X->N)", "print(X->N())", "print(X->N(1))", "print(X->N(x, 2))", "print(X->N(y))", "let q = X->N\nprint(q(x))", "print((->N)(X))", "print([X] . map(->N) . map(fn(q) -> q(x)))", "print([1, 2] . map(X->N))", "X->N = 3\nprint(X->N)", "print(X->N is function, X->N is any, typeof(X) is any)", "print(X->N == X->N, X->N != A->N)"]);
        let y = match count[1] { Some(k) => format!("B({})", args(k, 10)), None => "B".into() };
        Some(format!("{}let x = A({}), y = {}\n{}\nprint(x, y)\n", decl, args(count[0].unwrap(), 1), y, u.replace('X', recv).replace('N', n)))
    }, |cx, s| conform_src(cx, s, false, "member of a type"));
    // inside methods
    cx.explore("names inside methods", |ch| {
        // roles of f, g, h in the type itself; a global of the same name exists for each
        let nn = ["f", "g", "h"];
        let module = ch.flag();
        let mut fields = Vec::new();
        let mut methods = String::new();
        let mut roles = Vec::new();
        for n in nn {
            let r = ch.pick(4);
            if module && (r == 1 || r == 2) { return None; }
            match r {
                0 => (),
                1 => fields.push(n.to_string()),
                2 => methods += &format!(" fn {}(self, k = 'd') -> ('m{}', k, self is A)\n", n, n),
                _ => methods += &format!(" fn {}(k = 's') -> ('s{}', k)\n", n, n),
            }
            roles.push(r);
        }
        let inst = !module && ch.flag();
        let n = ch.pick(3);
        let own = ch.flag();
        // implicit self members are not reachable without self
        let u = *ch.of(&["N", "N()", "N(1)", "[1, 2] . map(N)", "(fn() -> N)()", "(fn(i) -> N(i))(3)", "if true then N else 0", "[fn() -> fn() -> N][0]()()", "{ N }", "N is function",
            "self->N", "self->N()", "self->N(4)", "A->N", "A->N(self)", "A->N()", "(fn() -> self->N)()", "(->N)(self)", "N = 5", "N += 5", "self->N = 6", "self->N += 1", "(fn() { N = 7; N })()", "(fn() { self->N = 8; N })()"]);
        let uses_self = u.contains("self");
        if uses_self && !inst { return None; }
        let r = roles[n];
        let raw = !u.contains("->N");
        if raw && (r == 1 || r == 2) && !inst { return None; }
        if raw && (u.contains("N =") || u.contains("N +=")) && (r == 2 || r == 3) { return None; }
        if !raw && roles.iter().all(|x| *x == 0) { return None; }
        if !raw && r == 0 { return None; }
        let m = format!(" fn run({}) {{ {} }}\n", match (inst, own) { (true, false) => "self", (true, true) => "self, w = 1", (false, false) => "", (false, true) => "w = 1" }, u.replace("{ N }", "[N]").replace('N', nn[n]));
        let first = ch.flag();
        let body = if first { format!("{}{}", m, methods) } else { format!("{}{}", methods, m) };
        let globals = "let f = 'gf', g = fn(k = 'd') -> ('gg', k)\nfn h(*k) -> ('gh', k)\n";
        let decl = if module { format!("module A {{\n{}}}\n", body) } else { format!("struct A({}) {{\n{}}}\n", fields.join(", "), body) };
        let call = if module { "print(A->run())\nprint(A->run(2))".to_string() } else { format!("let x = A({})\n{}\nprint(x)", args(fields.len(), 1), if inst { match ch.pick(3) { 0 => "print(x->run())", 1 => "print(A->run(x))", _ => "let q = x->run\nprint(q()); print((->run)(x)())" } } else { "print(A->run())" }) };
        Some(format!("{}{}{}\nprint(f)\n", globals, decl, call))
    }, |cx, s| conform_src(cx, s, false, "name inside a method"));
    cx.explore("construction, printing, comparison", |ch| {
        let a = *ch.of(&["A(1, 2)", "A(1)", "A()", "A", "A(1, 2, 3)", "A(2, 1)", "B(1, 2)", "B", "E()", "E", "A(A(1, 2), [3])", "A('s', nil)", "A(...[1, 2])", "A(1)(2)", "2 . A(1)", "[1, 2] . A", "M", "A(1.0i, {})", "A((1, 2), 3)"]);
        let b = *ch.of(&["A(1, 2)", "B(1, 2)", "A(2, 1)", "A(1, 3)", "A", "B", "E()", "M", "1", "nil", "[A(1, 2)]", "(1, 2)", "E"]);
        let u = *ch.of(&["print(x, repr(x), str(x), [x], {x: x})", "print(x == y, x != y, x is y)", "print(x < y)", "print(x > y, x <= y)", "print({x, y, x, y} . len)", "print(x in [y], x in {y}, {y: 1} . keys . list)", "print(typeof(x), x is A, x is B, x is E, x is struct)", "print(x is function, x is iterable, x is any)", "print([x, y, x] . sort)", "print(max(x, y), min(x, y))", "print(x is typeof(x), y is typeof(x))", "print(if x then 't' else 'f', not x)", "print(len(x))", "print(hash(x) == hash(copy(x)))", "print([y, x, y] . index_of(x))", "for i in x { print(i) }"]);
        let u = u.replace(", x is struct", "").replace("x is y", "x == x");
        if u.contains("hash(") { return None; }
        Some(format!("struct A(f, g)\nstruct B(g, f)\nstruct E()\nmodule M {{ fn s() -> 1 }}\nlet x = {}, y = {}\n{}\n", a, b, u))
    }, |cx, s| conform_src(cx, s, false, "struct value"));
    cx.explore("methods that mutate, recurse, capture and call each other", |ch| {
        let m1 = *ch.of(&["f += k; self", "self->f += k; self", "let old = f; f = g; g = old; self", "f = fn(j) -> j * g + k; f(2)", "self->f = self; f->g", "if k <= 0 then g else self->two(k - 1) + 1", "f, g = g, f; (f, g)", "[k] . map(two) . sum", "let h = fn() { g += k; g }\nh() + h()", "fn h() -> self\nh()->f", "f .= str; f", "self->two", "A(g, f)->two(0)", "one = 3", "let f = 99\nself->f + f", "for g in [5] { f = g }\ng", "three(k)", "A->three(k)", "four", "self->three(k)"]);
        let m2 = *ch.of(&["self->f", "f = k; one(0)", "g + k", "if k <= 0 then 0 else one(k - 1)", "[f, g, k]", "A->one(self, 0)"]);
        let u = *ch.of(&["print(x->one(1))", "print(x->one(1)); print(x->one(2))", "let q = x->one\nprint([1, 2] . map(q)); print(x->f, x->g)", "print([x, y] . map(fn(o) -> o->two(1)))", "print(A->two(y, 3) is any); print(x->one(0) is any)"]);
        if m1.contains("one = ") { return None; }
        // a field may hold the instance itself: print only parts of it
        let pr = if m1.contains("self") { "print(x->g, y->g)" } else { "print(x->g, y->g, typeof(x->f))" };
        if m1.contains("= self;") || m1 == "self->two" && m2.contains("one") || m2.contains("one") && m1.contains("two") { if !(m1.contains("k <= 0") || m2.contains("k <= 0")) { return None; } }
        if m1.contains("= self;") || (m1.contains("; self") && u.contains("print([x")) { return None; }
        Some(format!("struct A(f, g) {{\n fn one(self, k) {{ {} }}\n fn two(self, k) {{ {} }}\n fn three(k) {{ ('three', k) }}\n}}\nlet four = 'four', x = A(1, 2), y = A(3, 4)\n{}\n{}\n", m1, m2, u, pr))
    }, |cx, s| conform_src(cx, s, false, "method body"));
}
