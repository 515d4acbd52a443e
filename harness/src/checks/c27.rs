//! C27: decorated functions. Every program is a scope, which declares a function with a list of decorators, and uses it, and is
//! run by the reference evaluator (where a decorated function is a function, and an assignment) and by the implementation.
use super::*;
use crate::engine::Ch;

pub const META: Meta = Meta { id: "C27", run, assumptions: &["up to 2 decorators (3 in the thorough tier) of the listed kinds, in the listed scopes, and 2 functions with decorators in one scope"] };

const PRE: &str = "let log = []
fn id(f) { print('id', f is function); f }
fn call(f) { print('call', f()); f }
fn keep(f) { log . push(f); f }
fn wrap(f) { let n = 0; fn(*x) { n += 1; print('wrap', n); f(...x) } }
fn swap(f) -> fn() -> 7
fn make(m) { print('make', m); fn(f) { print('made', m); fn(*x) -> m + f(...x) } }
fn both(a, f) { print('both', a, f()); f }
let m = 3
";
const DECS: &[&str] = &["id", "call", "keep", "wrap", "swap", "memoize", "make(m)", "both(m)", "(fn(f) -> f)", "(fn(f) { let q = f; fn(*x) { q(...x) + m } })", "(fn(f) -> 5)", "(fn(f) { m += 1; f() })", "(late)", "[id][0]", "repr", "(wrap . wrap)", "(id == id)", "exit"];
const FUNS: &[&str] = &["fn g(x = 1) { if x > 2 { return x } else { return g(x + 1) } }", "fn g() -> m", "fn g(*x) { m += 1; [m, x] . len }", "fn g(x = m) { let y = x; fn h() { y += 1; y }; h() + h() }", "fn g() { k += 1; k }", "fn g(x = 1) -> if x > 2 then g is function else g(x + 1)", "fn g() { fn() -> [g is function, k] }", "fn g() -> 1 / len(log)", "fn() -> m", "fn(x = 3) { k += x; k }", "fn g((a, b) = (1, 2)) -> a + b"];
/// A scope: `@` is what is declared, and `$` its use
const SCOPES: &[&str] = &["let k = 10\n@\nlet v = 20\n$\nprint(k, v, m)", "fn main() {\n let k = 10\n @\n let v = 20\n $\n print(k, v, m)\n}\nmain()\nmain()", "do {\n let k = 10, l = 11\n @\n let v = 20\n $\n print(k, l, v, m)\n}", "for k in range(2) {\n @\n let v = 20 + k\n log . push(fn() -> v)\n $\n print(k, v, m)\n}\nfor f in copy(log) { print(f is function, (fn() -> f)()()) }", "fn main(p, k = 5) {\n let c = 1\n let fs = [fn() { c += p; c }]\n if p {\n  let d = 2\n  @\n  let v = 20\n  $\n  fs . push(fn() -> [c, d, v])\n }\n fs . map(fn(f) -> f()) . print\n fs\n}\nlet r = main(4)\nr . map(fn(f) -> f()) . print", "struct S(a) {\n fn n(self, k) {\n  let w = k\n  @\n  let v = a\n  $\n  [w, v, k]\n }\n}\nprint(S(1)->n(2))", "let k = 0\nloop {\n k += 1\n if k > 2 { break }\n let u = k\n @\n if k == 1 { continue }\n $\n print(u)\n}", "fn main() {\n let k = 1\n @\n}\nprint(main() is function)\nprint(1)", "fn outer() {\n let k = 1\n fn inner() {\n  let z = k\n  @\n  $\n  let v = 3\n  fn() -> [k, z, v]\n }\n k += 1\n inner()()\n}\nprint(outer())"];
const USES: &[&str] = &["print(g is function, g)", "print(g())", "print(g()); print(g()); print(log . len)", "let uu = fn() -> g()\nprint(uu()); g = fn() -> 8; print(uu(), g())", "g", "let g2 = g\ng = 3\nprint(g, (fn() -> g)(), g2 is function)", "log . push(fn() -> g); print(log[-1]() is function)", "fn ww(x) -> if x > 0 then ww(x - 1) else g()\nprint(ww(2))"];

fn program(ch: &mut Ch, n: usize, scopes: &[&str], decs: &[&str], funs: &[&str], uses: &[&str]) -> Option<String> {
    let k = ch.pick(n + 1);
    let scope = *ch.of::<&str>(scopes);
    let fun = *ch.of::<&str>(funs);
    let mut d = String::new();
    for _ in 0..k { d += &format!("@{}\n", ch.of::<&str>(decs)); }
    // outside of functions, a name which is declared later is an error of the compiler
    if d.contains("late") && !scope.contains("fn ") { return None; }
    let anon = fun.starts_with("fn(");
    if anon && k == 0 { return None; }
    let u = if anon || !scope.contains('$') { "print('anonymous')" } else { *ch.of::<&str>(uses) };
    Some(format!("{}{}\nlet end = 'end'\nprint(end, log . len)\nfn late(f) {{ print('late'); f }}\n", PRE, scope.replace('$', u).replace('@', &(d + fun))))
}

fn run(cx: &mut Cx) {
    let t = cx.thorough();
    cx.explore("functions with one decorator", |ch| program(ch, 1, SCOPES, DECS, FUNS, USES), |cx, s| { for opt in [false, true] { conform_src(cx, s.clone(), opt, "decorated function"); } });
    let (f, u) = if t { (FUNS, USES) } else { (&FUNS[..], &USES[..4]) };
    let d = &DECS[..if t { DECS.len() } else { 13 }];
    cx.explore("functions with two decorators", |ch| program(ch, 2, SCOPES, d, f, u), |cx, s| conform_src(cx, s, false, "decorated function"));
    if t { cx.explore("functions with three decorators", |ch| program(ch, 3, &SCOPES[..5], &DECS[..7], &FUNS[..6], &USES[..3]), |cx, s| conform_src(cx, s, false, "decorated function")); }
    // decorators refer to other decorated functions, and to the name itself
    let ds: &[&str] = &["", "@id\n", "@call\n", "@wrap\n", "@memoize\n", "@swap\n", "@keep\n@wrap\n"];
    cx.explore("several decorated functions in one scope", |ch| {
        let (a, b, c) = (*ch.of::<&str>(ds), *ch.of::<&str>(ds), *ch.of::<&str>(&["", "@h\n", "@g\n", "@(fn(f) -> fn() -> g() + h() + f())\n", "@(fn(f) { g = fn() -> 50; f })\n"]));
        let bodies = *ch.of::<(&str, &str, &str)>(&[("1", "2", "3"), ("k", "g() + k", "h() + g()"), ("m", "{ k += 1; g() + k }", "{ k += g(); h() + k }")]);
        let arrow = |s: &str| if s.starts_with('{') { s.to_string() } else { format!("-> {}", s) };
        let text = format!("{}fn g(*_x) {}\n{}fn h(*_x) {}\n{}fn i(*_x) {}\nprint(g is function, h is function, i is function)\nprint(g())\nprint(h())\nprint(i is function and i())\nprint(k)", a, arrow(bodies.0), b, arrow(bodies.1), c, arrow(bodies.2)).replace("*_x", "*x");
        let scope = *ch.of::<&str>(&["let k = 1\n@", "fn main() {\nlet k = 1\n@\n}\nmain()", "for k in range(2) {\n@\n}", "fn main(k) {\n fn() {\n@\n}\n}\nmain(4)()"]);
        Some(format!("{}{}\nprint(m, log . len)\nfn late(f) -> f\n", PRE, scope.replace('@', &text)))
    }, |cx, s| conform_src(cx, s, false, "decorated functions"));
    // in a session
    let lines: &[&str] = &["@id fn g(x = 1) { if x > 2 { return x } else { return g(x + 1) } }", "@call\n@wrap fn g2(x = 1) { if x > 2 { return x } else { return g2(x + 1) } }", "@swap fn g3() -> 1", "@bad fn g4() -> 1", "@(fn(f) -> 1 / 0) fn g5() -> 1", "@call\nfn() -> 4", "g()", "g2()", "g3()", "let w = 5", "w", "@(fn(f) { w = f; 9 }) fn g6() -> 6", "w is function", "g6"];
    cx.explore("decorated functions in a session", |ch| { let k = 1 + ch.pick(if t { 4 } else { 3 }); let mut l: Vec<&str> = vec!["let w = 1", "fn id(f) -> f", "fn call(f) { print(f()); f }", "fn wrap(f) -> fn(*x) -> f(...x) + 100", "fn swap(f) -> fn() -> 7"]; for _ in 0..k { let x = *ch.of::<&str>(lines); if x.contains(" fn g") || x.starts_with("let") { if l.contains(&x) { return None; } } l.push(x); } Some(l.iter().map(|s| s.to_string()).collect::<Vec<_>>()) }, |cx, l| c19::judge(cx, l, "decorated function in a session"));
}
