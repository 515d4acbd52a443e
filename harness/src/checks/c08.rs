//! C08: name resolution. Every small program of nested scopes, functions and declarations over two names, judged by a
//! reference scope analysis (is the program legal?) and the reference evaluator (what do its names denote?).
use super::*;
use crate::engine::Ch;
use crate::model::{check, natives, parse};

pub const META: Meta = Meta { id: "C08", run, assumptions: &["at most two variable names (three in some spaces); at most six statements, nested at most three deep"] };

struct G { budget: usize, fresh: usize, fns: usize, calls: Vec<String> }

impl G {
    fn v(&mut self) -> String { self.fresh += 1; format!("'v{}'", self.fresh) }
    fn stmts(&mut self, ch: &mut Ch, depth: usize, top: bool) -> String {
        let mut out = String::new();
        loop {
            if self.budget == 0 || ch.flag() { break; }
            self.budget -= 1;
            let n = *ch.of(&["a", "b"]);
            out += &match ch.pick(if depth == 0 { 5 } else { 11 }) {
                0 => format!("let {} = {}\n", n, self.v()),
                1 => format!("print({})\n", n),
                2 => format!("{} = {}\n", n, self.v()),
                3 => { let m = if n == "a" { "b" } else { "a" }; format!("let {} = {}\n", n, m) }
                4 => format!("let {} = [{}]\n", n, n),
                5 => format!("do {{\n{}}}\n", self.stmts(ch, depth - 1, false)),
                6 => { let v = self.v(); format!("for {} in [{}] {{\n{}}}\n", n, v, self.stmts(ch, depth - 1, false)) }
                7 => { self.fns += 1; let f = format!("f{}", self.fns); let b = self.stmts(ch, depth - 1, false); let later = ch.flag(); if later && top { self.calls.push(f.clone()); } else if later { return { ch.kill(); out } } format!("fn {}() {{\n{}}}\n{}", f, b, if later { String::new() } else { format!("{}()\n", f) }) }
                8 => { let v = self.v(); let b = self.stmts(ch, depth - 1, false); format!("(fn({}) {{\n{}}})({})\n", n, b, v) }
                9 => { let b = self.stmts(ch, depth - 1, false); format!("fn {}() {{\n{}}}\n{}()\n", n, b, n) }
                _ => { let b = self.stmts(ch, depth - 1, false); format!("if {} {{\n{}}} else {{ print('e') }}\n", ["true", "nil"][ch.pick(2)], b) }
            };
            if ch.dead() { break; }
        }
        out
    }
}

/// Judge a program that may be illegal
pub fn judge(cx: &mut Cx, src: String, note: &str) {
    let p = match parse::parse(&src) { Some(p) => p, None => { if std::env::var("CMC_TIME").is_ok() { eprintln!("not parsed by the reference parser: {}", src.replace('\n', "\\n")); } return } };
    let errs = check::check(&p, natives::names());
    if errs.is_empty() { cx.stat("legal programs", 1); return conform_src(cx, src, false, note); }
    cx.stat("illegal programs", 1);
    let i = Input::Run { src, opt: false, stdin: String::new() };
    let o = match cx.exec(&i) { Some(o) => o, None => return };
    if let Input::Run { src, .. } = &i { cx.fresh(src.as_bytes()); }
    cx.transitions += 1;
    cx.validated += 1;
    let all = errs.iter().all(|e| o.err.contains(&format!("'{}'", e.name())));
    if o.end != End::Compile || !o.out.is_empty() || !all { cx.fail(&i, note, format!("rejected before running any code, naming {}", errs.iter().map(|e| format!("'{}' ({})", e.name(), match e { check::Illegal::Duplicate(_) => "declared twice in one scope", check::Illegal::Native(_) => "a native function", _ => "not declared" })).collect::<Vec<_>>().join(", ")), &o); }
}

fn run(cx: &mut Cx) {
    let n = cx.tier.pick(4, 5);
    cx.explore("nested scopes over two names", |ch| {
        let mut g = G { budget: n, fresh: 0, fns: 0, calls: vec![] };
        let s = g.stmts(ch, 2, true);
        // functions that are called only at the end
        let tail: String = g.calls.iter().map(|f| format!("{}()\n", f)).collect();
        if s.matches("print").count() + s.matches("let").count() == 0 { return None; }
        Some(format!("{}{}", s, tail))
    }, |cx, s| judge(cx, s, "scopes"));
    // late binding: every arrangement of uses in functions, global declarations, and calls
    let (maxlen, three) = (cx.tier.pick(5, 6), cx.thorough());
    cx.explore("forward references", |ch| {
        let parts: &[&str] = &["let x = 'x'", "let y = 'y'", "f()", "g()", "fn f() { print(x, y) }", "fn g() { y = x . len; print(x) }", "x = 'x2'", "fn x() -> 1", "do { let x = 'in'; f() }", "fn f() { g() }", "let f = fn() -> print([y, x, y + x, f is function])", "fn g() { let k = fn() -> (x, y); x, y = y, x; print(k()) }"];
        let k = 3 + ch.pick(maxlen - 2);
        let mut s = String::new();
        let mut used = 0u32;
        for _ in 0..k {
            let j = ch.pick(parts.len());
            // at most one of each, except calls
            if used & (1 << j) != 0 && j != 2 && j != 3 { return None; }
            used |= 1 << j;
            s += parts[j];
            s.push('\n');
        }
        if used & 0b110010110000 == 0 || !three && k == maxlen && used & 0b1100 == 0 { return None; }
        Some(s)
    }, |cx, s| judge(cx, s, "forward references"));
    cx.explore("positions of forward references inside expressions", |ch| {
        let e = *ch.of(&["$0 - $1", "[$0, $1, 5]", "f2($0, $1)", "$0 . f1", "[9, 8, 7][$0]", "if $0 then $1 else $2", "$0 and $1 or $2", "(fn(q) -> q - $0)($1)", "$2 = $0 - $1", "[$0:$1]($2)", "{$0: $1, $2: 3}", "$0 < $1 < $2", "x0 = [$0, x0]; x0 - $1", "$0 - (x1 = $2) - $1", "for q in [$0] { x1 += q + $2 }; $1", "let q = $0; let r = $1; r - q", "x0, x1 = $1, $2; (x0, x1)", "a, x0, *x1 = [$1, 5, $0]; (a, x0)", "f3($0)($1)", "f1($0) - f1($1)", "return f2(...[$0, $1])", "assert $0 < 5 : $1\n$2", "a - $0", "a . f1 - $0 - l", "($0 <)($1)", "x0 max $1 min $2", "x0 += $1; x0", "x0 max= $1; x0", "l[0] = $0 - $1; l", "l->zz = $0"]);
        if e.contains("->") && !e.contains("fn") { return None; }
        let t = fill(ch, e, &[&["x0", "x1", "a"], &["x0", "x1", "l", "1"], &["x2", "x0"]]);
        let d = ["let x0 = 3", "let x1 = 2", "let x2 = 1", "fn f1(z) -> [z]", "let f2 = (-)", "fn f3(z) -> fn(w) -> z - w"];
        // orders of the declarations
        let o = ch.pick(6);
        let ds: Vec<&str> = (0..6).map(|k| match o { 0 => d[k], 1 => d[5 - k], 2 => d[(k + 3) % 6], 3 => d[[2, 0, 1, 4, 3, 5][k]], 4 => d[[1, 2, 0, 5, 3, 4][k]], _ => d[[4, 1, 3, 0, 5, 2][k]] }).collect();
        let split = ch.pick(3) * 3;
        let form = ch.pick(3);
        let body = match form { 0 => format!("fn m(a) {{ let l = [7]\n{} }}", t), 1 => { if t.contains(';') || t.contains("let") || t.contains("return") || t.contains('\n') || t.contains("a, x0") || t.contains("x0, x1 =") || t.contains('l') { return None; } format!("fn m(a) -> {}", t) } _ => format!("fn m(a) {{ let l = [7]\n (fn() {{ {} }})() }}", t) };
        let t = |v: &[&str]| v.iter().map(|x| format!("{}\n", x)).collect::<String>();
        Some(format!("{}{}\n{}print(m(1))\nprint(m(4), x0, x1)\n", t(&ds[..split]), body, t(&ds[split..])))
    }, |cx, s| judge(cx, s, "forward reference in an expression"));
    // assignment patterns, whose targets contain expressions, which themselves assign to patterns
    let third = cx.thorough();
    cx.explore("forward references inside assignment patterns", |ch| {
        let ix = |ch: &mut Ch| *ch.of(&["0", "(q = 1)", "((p, q) = ((0, 1),))[0][0]", "(fn((u, v)) -> u)((1, 0))", "((late, q) = ((0, 1),))[0][1]", "(if late == 0 then 0 else 1)", "((l[((p, q) = ((1, 0),))[0][0]], late) = ((0, 1),))[0][1]"]);
        let n = 2 + ch.pick(if third { 2 } else { 1 });
        let t: Vec<String> = (0..n).map(|_| match ch.pick(6) { 0 => "late".to_string(), 1 => "p".into(), 2 => format!("l[{}]", ix(ch)), 3 => format!("(late, l[{}])", ix(ch)), 4 => format!("(l[{}], *late)", ix(ch)), _ => "*late".into() }).collect();
        if t.iter().filter(|x| x.starts_with('*')).count() > 1 || !t.iter().any(|x| x.contains("late") || x.len() > 5) { return None; }
        let v: Vec<&str> = t.iter().map(|x| if x.starts_with('(') { "[6, 7]" } else if x == "p" { "3" } else { "5" }).collect();
        let d = ["let p = 8, q = 9\n", "let l = [0, 1]\n", "let late = 0\n"];
        let o = [[0, 1, 2], [2, 1, 0], [1, 2, 0]][ch.pick(3)];
        let split = ch.pick(4);
        let form = ch.pick(2);
        let body = format!("{} = {}", t.join(", "), v.join(", "));
        let f = if form == 0 { format!("fn f() {{ {} }}\n", body) } else { format!("fn f() {{ let k = fn() {{ {}; 1 }}; k() }}\n", body) };
        Some(format!("{}{}{}print(f())\nprint(p, q, l, late)\n", o[..split].iter().map(|k| d[*k]).collect::<String>(), f, o[split..].iter().map(|k| d[*k]).collect::<String>()))
    }, |cx, s| judge(cx, s, "forward references inside assignment patterns"));
    cx.explore("functions, methods and globals of the same name in different modules", |ch| {
        let own = ["", " fn b(k) -> ('Ab', k)\n"];
        let body = *ch.of(&["b(1)", "b", "[b(1), c(2)]", "(fn() -> b(3))()", "b(...[c(4)])", "[1, 2] . map(b)", "b(1) == c(1)"]);
        let kind = ch.pick(2);
        let before = ch.flag();
        let o = own[ch.pick(2)];
        let m = format!(" fn a() {{ {} }}\n", body);
        let a = format!("{} {{\n{}{}{}}}\n", ["module A", "struct A(b9)"][kind], if before { o } else { "" }, m, if before { "" } else { o });
        let b = *ch.of(&["", "module B {\n fn b(k) -> ('Bb', k)\n}\n", "struct B(b8) {\n fn b(self, k?) -> ('Bs', k)\n fn c(k) -> ('Bc', k)\n}\n", "struct B(b, c)\n", "module B {\n fn d() -> b(7)\n fn b(k) -> ('Bb', k)\n fn c(k) -> b(k)\n}\n"]);
        let g = *ch.of(&["", "fn b(k) -> ('gb', k)\n", "let b = fn(k) -> ('lb', k)\n", "do { let b = 5 }\n"]);
        let f = *ch.of(&["", "fn e() { b(6) }\n", "fn e() -> [c(5), b(6)]\n"]);
        let c = "fn c(k) -> ('gc', k)\n";
        let parts = [&a[..], b, g, f, c];
        // all orders of the five parts
        let mut left = vec![0usize, 1, 2, 3, 4];
        let mut s = String::new();
        while !left.is_empty() {
            let k = ch.pick(left.len());
            let p = parts[left.remove(k)];
            if p.is_empty() && k != 0 { return None; }
            s += p;
        }
        s += "print(A->a())\n";
        if !f.is_empty() { s += "print(e())\n"; }
        Some(s)
    }, |cx, s| judge(cx, s, "names in modules"));
    // every kind of declaration, twice, in every pair of places
    cx.explore("pairs of declarations", |ch| {
        let d: &[&str] = &["let N = 1", "let (p, N) = [1, 2]", "let *N, q = [1]", "fn N() -> 3", "struct N(zz)", "module N { fn zz() -> 4 }", "for N in [5] { print(N) }", "fn fN(N) { print(N) }; fN(6)", "(fn(o, (N, _)) -> print(N))(0, [7, 8])", "fn vN(*N) -> print(N); vN(9)", "let N, N2", "fn dN(N = 10) -> print(N); dN()"];
        let names: &[&str] = &["a", "b", "map", "print", "typeof", "x1", "it", "len"];
        let (n, m) = (*ch.of(names), *ch.of(names));
        let (d1, d2) = (ch.pick(d.len()), ch.pick(d.len()));
        let wrap = |ch: &mut Ch, d: &str| match ch.pick(3) { 0 => d.to_string(), 1 => format!("do {{ {} }}", d), _ => format!("(fn() {{ {}; 0 }})()", d) };
        let a = d[d1].replace('N', n);
        let b = d[d2].replace('N', m);
        let (w1, w2) = (wrap(ch, &a), wrap(ch, &b));
        if (d1 == 4 || d1 == 5) && w1 != a || (d2 == 4 || d2 == 5) && w2 != b { return None; }
        let nest = ch.pick(2);
        // helper names differ between the two
        let w2 = w2.replace("let (p,", "let (p9,").replace(", q =", ", q9 =").replace("zz", "yy").replace(&format!("f{}(", m), &format!("f9{}(", m)).replace(&format!("v{}(", m), &format!("v9{}(", m)).replace(&format!("d{}(", m), &format!("d9{}(", m)).replace(&format!("{}2", m), &format!("{}29", m));
        Some(match nest { 0 => format!("print('start')\n{}\n{}\nprint('end')\n", w1, w2), _ => { if d1 == 4 || d1 == 5 || d2 == 4 || d2 == 5 { return None; } format!("fn main() {{\nprint('start')\n{}\n{}\nprint('end')\n}}\nmain()\n", w1, w2) } })
    }, |cx, s| judge(cx, s, "pair of declarations"));
    cx.explore("names that are not declared", |ch| {
        let u = *ch.of(&["zq", "zq = 1", "zq += 1", "zq()", "zq->a", "zq[0]", "zq[0] = 1", "[zq]", "x . zq", "-zq", "if zq { }", "while zq { }", "for i in zq { }", "return zq", "assert zq", "x, zq = 1, 2", "let w = zq", "fn(q = zq) -> 1", "fn w(q = zq) {}", "(zq +)", "(+ zq)", "{1: zq}", "'%s' % zq", "eval zq", "zq . print", "if true then 1 else zq", "fn() -> zq", "x->a = zq", "nil or zq", "do { } while zq", "loop { zq }", "x = zq; let zq", "do { let zq }; zq", "(fn(zq) -> 1)(zq)", "for zq in [] {}; zq", "let f = fn() -> zq; let zq = 1; f()", "do { let zq = zq }"]);
        if u == "(fn(zq) -> 1)(zq)" && false { return None; }
        let w = *ch.of(&["U", "do { U }", "if true { U }", "fn f() { U }\nf()", "fn f() { fn g() { U }; 1 }", "for i in [1] { U }", "let g = fn() { U }", "struct T(a) {\n fn m(self) { U }\n}", "module M {\n fn m() { U }\n}", "do { do { U } }\nlet y = 3", "while false { U }", "if false { } else { U }"]);
        if u.starts_with("return") && !w.contains("fn") || u.contains("loop {") && !w.contains("fn") { return None; }
        let after = *ch.of(&["", "let zq = 'late'\n", "do { let zq = 1 }\n", "fn zq() -> 1\n", "struct zq(a)\n"]);
        Some(format!("struct S(a)\nlet x = S(1)\nprint('ran')\n{}\n{}", w.replace('U', u), after))
    }, |cx, s| judge(cx, s, "undeclared name"));
}
