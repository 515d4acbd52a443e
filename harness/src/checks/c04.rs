//! C04: captured variables. Every nesting of scopes up to depth three, every closure shape, every way of leaving.
use super::*;
use crate::engine::Ch;

pub const META: Meta = Meta { id: "C04", run, assumptions: &["scope nesting is explored to depth three (four in the thorough tier); every closure is called at least twice, after all scopes have ended"] };

/// scope openers; `$v` is the variable of the scope, `$n` a fresh number, `$$` the body
pub const SCOPES: &[(&str, bool, bool)] = &[
    // (text, is a loop, is a function)
    ("do { let $v = $n; $$ }", true, false),
    ("for $v in [$n, $n + 100] { $$ }", true, false),
    ("for i$n in range(2) { let $v = i$n + $n; $$ }", true, false),
    ("let k$n = 0; while k$n < 2 { k$n += 1; let $v = $n + k$n; $$ }", true, false),
    ("fn f$n($v) { $$ }; f$n($n); f$n($n + 100)", false, true),
    ("fn f$n() { let $v = $n, pad = 0; $$ }; f$n(); f$n()", false, true),
    ("[$n, $n + 100] . map(fn($v) { $$ })", false, true),
    ("if true { let pad = 3, $v = $n; $$ }", false, false),
    ("for pad, $v in [(0, $n), (1, $n + 100)] { $$ }", true, false),
    ("fn f$n((p, $v), *q) { $$ }; f$n((1, $n), 2, 3); f$n((1, $n + 100))", false, true),
    ("let j$n = 0; loop { let $v = $n; $$ ; $v += 7; j$n += 1; if j$n == 2 { break } }", true, false),
    ("fn f$n($v = $n) { $$ }; f$n($n + 100); f$n($n + 200)", false, true),
    ("let g$n = fn(n, $v) { if n > 0 { g$n_(n - 1, $v + 1) }; $$ }; g$n(1, $n)", false, true),
];

/// closure shapes over `a` (outermost), `b`, `c` (innermost visible)
const SHAPES: &[&str] = &[
    "fs . push(fn() { $x += 1; [$all] })",
    "fs . push(fn() { [$all] })",
    "fs . push(fn() { $x += 1; $y += 2; [$all] }); $x += 10",
    "fs . push(fn() { fs . push(fn() { $x += 1; [$all, 'n'] }); $y += 5; [$all] })",
    "fs . push((fn() { fn() { $x += 1; [$all, 'm'] } })())",
    "fs . push(fn() { let $x = 50; let h = fn() { $x += 1; [$all] }; h(); h() })",
    "fn r(n) { $x += 1; if n > 0 { r(n - 1) } else { [$all, n] } } ; fs . push(fn() -> r(2))",
    "let h = fn() { $x += 1; [$all] }, h2 = fn() { $y += 20; h() }; fs . push(h2); fs . push(h); h2()",
    "fs . push(fn(z) { $x = z; [$all] } . repr . fn(s) { $x += len s; fn() { $x -= 1; [$all] } })",
    "fs . push([$all] . fn(l) -> (fn() { l . push($x); l }))",
    "let t = $x; fs . push(fn() { t += 1; [t, $all] }); t = 0",
    "if $x % 2 == 0 { let u = $x; fs . push(fn() { u += 1; [u, $x] }) }",
    "",
];

const LEAVES: &[&str] = &["", "break", "continue", "return", "return fn() { 1 }", "if $x > 100 { break }", "if $x > 100 { return 4 }", "if len(fs) == 1 { continue }"];

fn build(ch: &mut Ch, depth: usize, scopes: &[(&str, bool, bool)], shapes_in: &[&str], shapes_out: &[&str]) -> Option<String> {
    let names = ["a", "b", "c", "d"];
    let mut text = "$$".to_string();
    let mut in_loop = false;
    let (mut in_fn, mut cont) = (false, false);
    for level in 0..depth {
        let (t, lp, f) = *ch.of(scopes);
        if f { in_loop = false; in_fn = true; } else if lp { in_loop = true; cont = !t.starts_with("do {") && !t.contains("loop {"); }
        let n = (level + 1) * 1000;
        let all = names[..=level].join(", ");
        let (x, y) = (names[level], names[if level > 0 { level - 1 } else { 0 }]);
        let last = level + 1 == depth;
        let shape = if last { *ch.of(shapes_in) } else { *ch.of(shapes_out) };
        // which of the visible variables the closure updates
        let upd = if shape.contains("$x") && last { *ch.of(&names[..=level]) } else { x };
        let mut body = if last { shape.to_string() } else if shape.is_empty() { "$$".to_string() } else { format!("$$ ; {} ; print({})", shape, all) };
        if last {
            let leaf = *ch.of(LEAVES);
            if leaf.contains("return") && !in_fn || leaf.contains("break") && !in_loop || leaf.contains("continue") && !(in_loop && cont) { return None; }
            let leaf = leaf.replace("$x", x);
            if !leaf.is_empty() { body = format!("{}{}{}", body, if body.is_empty() { "" } else { "; " }, leaf); }
            if body.is_empty() { return None; }
        }
        let body = body.replace("$all", &all).replace("$x", upd).replace("$y", y);
        let t = t.replace("g$n_", &format!("(fn(p, q) -> nil)")).replace("$v", names[level]).replace("$n", &n.to_string());
        text = text.replace("$$", &t.replace("$$", &body));
    }
    Some(text)
}

fn run(cx: &mut Cx) {
    let tail = "\nfor f in copy(fs) { print(f()) }\nfor f in copy(fs) { print(f()) }\nfor f in fs { print(f()); if len(fs) > 20 { break } }\n";
    let fin = |s: String, m: usize| if m == 0 { format!("let fs = []\n{}{}", s, tail) } else { format!("let fs = []\nfn main(pad1, pad2) {{ let pad3 = 1; {}; print(pad1, pad2, pad3) }}\nmain(1, 2){}", s, tail) };
    let one = &[""];
    let deep = cx.thorough();
    cx.explore("two nested scopes", |ch| { let m = ch.pick(if deep { 2 } else { 1 }); build(ch, 2, SCOPES, SHAPES, SHAPES).map(|s| fin(s, m)) }, |cx, s| conform_src(cx, s, false, "captured variables"));
    let few: Vec<(&str, bool, bool)> = if cx.thorough() { SCOPES.to_vec() } else { SCOPES[..7].to_vec() };
    let inner: &[&str] = if cx.thorough() { SHAPES } else { &SHAPES[..11] };
    let outer: &[&str] = if cx.thorough() { &["", SHAPES[0], SHAPES[3]] } else { one };
    cx.explore("three nested scopes", |ch| build(ch, 3, &few, inner, outer).map(|s| fin(s, 0)), |cx, s| conform_src(cx, s, false, "captured variables"));
    let few4: Vec<(&str, bool, bool)> = if cx.thorough() { SCOPES[..7].to_vec() } else { vec![SCOPES[0], SCOPES[1], SCOPES[4]] };
    cx.explore("four nested scopes", |ch| build(ch, 4, &few4, &SHAPES[..if few4.len() > 3 { 3 } else { 6 }], one).map(|s| fin(s, 1)), |cx, s| conform_src(cx, s, false, "captured variables"));

    // captured variables of functions, methods and modules; sharing between sibling closures; counters in every order of calls
    let make = ["fn make() { let x = 0; [fn() { x += 1; x }, fn() { x *= 10; x }, fn() -> x, fn(v) { x = v }] }",
        "fn make() { let x = 0, r = []; for i in range(3) { let y = x; r . push(fn() { x += 1; y += i; [x, y] }) } ; r . push(fn() -> x); r }",
        "fn make(x = 5) { let get = fn() -> x; let inc = fn(d = 2) { x += d; get() }; [inc, get, fn() { inc(); inc() }, fn() { let x = 'q'; get() }] }",
        "fn make() { let a = 1; fn f() { let b = a; fn g() { let c = b; fn h() { a += 1; b += 10; c += 100; [a, b, c] } ; h } ; g() } ; [f(), f(), fn() { a = 0 }, fn() -> a] }",
        "struct P(k) { fn make(self) { let x = k; [fn() { k += 1; x += k; [x, k] }, fn() -> [x, self], fn() { x = 0 }, fn() { let s = self; fn() { s->k += 5; k } }()] } }\nfn make() { P(3)->make() }",
        "fn make() { let i = 0, r = []; while i < 4 { let j = i; r . push(fn() { j += 1; i += 1; [i, j] }); i += 1; if i == 3 { let j = 'z'; r . push(fn() -> [i, j]) } } ; r }",
        "fn make() { let l = [1, 2]; let it = fn() { l . push(len l); l }; let x, (y, *z) = (1, (2, 3, 4)); [it, fn() { x += y; z . push(x); [x, y, z] }, fn() { l = []; it() }, fn() { y, x = x, y; [x, y] }] }",
        "fn make() { fn even(n) { if n == 0 { true } else { odd(n - 1) } } ; let cnt = 0; let odd = fn(n) { cnt += 1; if n == 0 { false } else { even2(n - 1) } } ; [fn() -> cnt, fn() -> cnt, fn() -> cnt, fn() -> cnt] }"];
    let calls: Vec<String> = (0..4).map(|k| format!("u[{}]", k)).chain((0..4).map(|k| format!("w[{}]", k))).collect();
    cx.explore("call orders of sibling closures of two activations", |ch| {
        let m = *ch.of(&make);
        if m.contains("even2") { return None; }
        let n = 4;
        let mut s = format!("{}\nlet u = make(), w = make()\n", m);
        for _ in 0..n { let c = ch.of(&calls); s.push_str(&format!("print({}({}))\n", c, if m.contains("fn(v)") && c.contains('3') { "7" } else { "" })); }
        Some(s)
    }, |cx, s| conform_src(cx, s, false, "sibling closures"));

    // what a captured variable looks like after each way of ending an activation, including errors caught by nothing: pending values on the stack
    let alts: &[&[&str]] = &[&["let x = 1", "let x = 1, y = 2", "let y = 9; let x = y", "let (x, y) = (1, 2)"], &["x += 1", "x = [x]", "(fn(x) { x += 5 })(x)", "x", "do { let x = 40; x += 1 }"], &["fn() -> x", "fn() { x += 1; x }", "fn() { let z = fn() { x += 1; x }; z() }", "fn(x = x) -> x"],
        &["[$g, 1]", "(1, $g)", "{1: $g}", "(if true then $g else nil)", "max([1, 2]) . fn(k) -> $g", "$g"]];
    cx.explore("closures made inside pending expressions", |ch| {
        let s = fill(ch, "fn f() { $0; let r = $3; $1; r }\nlet p = f()\nlet g = if p is list then p[0] elif p is vector then p[1] elif p is dict then p[1] else p\nprint(g()); print(g()); let p2 = f(); print(g())\n", &[alts[0], alts[1], &[], alts[3]]);
        let g = *ch.of(alts[2]);
        Some(s.replace("$g", &format!("({})", g)))
    }, |cx, s| conform_src(cx, s, false, "closure in a pending expression"));
    // functions of every kind that are declared after (or around) scopes whose variables were captured, in every order of capture
    cx.explore("declarations after scopes with captured variables", |ch| {
        let scope = *ch.of(&["if true { @ }", "for q in range(2) { let z = q; @ }", "do { @ }", "let q = 0\nwhile q < 2 { q += 1; let w = q; @ }", "fn f0(p) { let w = p; if p { @ }; $ }\nf0(1)", "if true { let o = 5; do { @ }; fs . push(fn() { o += 1; o }) }", "fn f0(p, o) { if p { @ }; let w = 7; $; fs . push(fn() -> [w, o, p]) }\nf0(1, 2)"]);
        let names = ["a", "b", "c"];
        let n = 2 + ch.pick(2);
        let mut s: String = names[..n].iter().enumerate().map(|(k, x)| format!("let {} = {}; ", x, k + 1)).collect();
        // which variable the closures capture, in order
        let mut used = Vec::new();
        for _ in 0..1 + ch.pick(n) { let k = ch.pick(n); used.push(names[k]); }
        s += &match ch.pick(3) {
            0 => used.iter().map(|x| format!("fs . push(fn() {{ {0} += 10; {0} }}); ", x)).collect::<String>(),
            1 => format!("fs . push(fn() {{ {}{} }})", used.iter().map(|x| format!("{} += 10; ", x)).collect::<String>(), used.join(" - ")),
            _ => format!("fn g0() {{ let h = 3; fs . push(fn() {{ h += 1; {}{} - h }}) }}; g0()", used.iter().map(|x| format!("{} += 10; ", x)).collect::<String>(), used.join(" - ")),
        };
        let after = *ch.of(&["let v = 9; fs . push(fn() -> v)", "fn g(x) { let y = x; fs . push(fn() { y += 1; y }); x }; g(4)", "let u = 3, v = 4; fs . push(fn() { v += 1; u += v; [u, v] })", "fs . push(fn() -> 'k')", "for v in [6, 7] { fs . push(fn() -> v) }"]);
        let decl = *ch.of(&["", "module M {\n fn m(k) { fn() -> k }\n fn n() -> 8\n}\nfs . push(M->m(4)); fs . push(M->n)", "struct S(v) {\n fn m(self, y = 6) { fn() -> [v, y] }\n fn n() -> 8\n}\nfs . push(S(5)->m()); fs . push(S->n)", "fn t(k, j = 2) -> [k, j]\nfs . push(fn() -> t(1))"]);
        let inside = scope.contains('$');
        let s = scope.replace('@', &s).replace('$', after);
        let pre = ch.flag();
        Some(format!("let fs = []\n{}{}\n{}\n{}\nfor f in copy(fs) {{ print(f()) }}\nfor f in copy(fs) {{ print(f()) }}\n", if pre { "let g1 = 'g1', g2 = 'g2'\n" } else { "" }, s, decl, if inside { "" } else { after }))
    }, |cx, s| conform_src(cx, s, false, "declarations after captures"));
}
