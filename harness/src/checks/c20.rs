//! C20: `eval`. Texts of an alphabet at every position of a program, histories that mix texts with the caller's state, and
//! sessions where texts fail, against the reference evaluator, which evaluates the text with no variables in scope.
use super::*;

pub const META: Meta = Meta { id: "C20", run, assumptions: &["texts from an alphabet of about 100, and all expressions of three operands", "histories of up to 4 steps (5 in the thorough tier), sessions of up to 3 inputs (4)"] };

/// A string literal that denotes the text
pub fn quote(t: &str) -> String { format!("'{}'", t.replace('\\', "\\\\").replace('\'', "\\'").replace('\n', "\\n")) }

/// Expressions which denote plain values
const VALUES: &[&str] = &["1", "-7", "nil", "true", "'x'", "\"a'b\"", "2i - 3", "1 + 2 * 3", "[1, 'a']", "(1, 2)", "3, 4", "[]", "{}", "{1: [2]}", "{3}", "range(3)", "10 % 4 == 2", "[1, 2, 3] [1:]", "'abc' [-1]", "[3, 1, 2] . sort", "if 1 > 2 then 'a' else 'b'", "not 3", "1 < 2 < 3", "nil or 5", "0 and x . y", "'%d!' % 5", "[1, 2] . map(+ 1) . sum", "(\n1,\n2\n)", "1 // one", " 4\n", "\n5", "/* */ 6", "enumerate([7])", "heap([2])", "len('abc')", "max(1, 5, 3)", "[...[1, 2], 3]", "rational(1, 2)"];
/// Expressions which denote functions
const FUNCTIONS: &[&str] = &["fn(x) -> [x, 1]", "fn(x) { let y = x ; fn() { y = [y] ; y } }", "fn() -> 3", "fn(*a) -> len(a)", "fn(x, y = 2) -> (x, y)", "fn((p, q)) -> [q, p]", "fn(p, (q, *r)) -> [r, q, p]", "(+ 1)", "print", "(->v)", "[0]", "[1:]", "fn(x) { if x { return 1 } ; 2 }", "fn(x) { let r = [] ; for i in x { if i == 2 { break } ; r . push(i) } ; r }", "fn(f) -> f(f)", "map(str)", "memoize(fn(x) -> [x])", "fn(x) { let t = 0 ; while t < 3 { t += 1 } else { t = 9 } ; [t, x] }", "fn(x) -> x->v", "fn(x) { x->v = 3 ; x }", "fn(s) -> eval(s)", "fn(x) -> fn(y) -> fn(z) -> [x, y, z]", "(- 1) . map", "eval", "eval . repr . (fn(x) -> eval(x))", "fn(x) { let a, b = [x, 1] ; (a, b) = [b, a] ; [a, b] }", "fn(x, g) -> g(x)", "fn(x) { print('p', x) ; x } "];
/// Texts which fail when they are evaluated, or are no expressions
const FAILING: &[&str] = &["1 / 0", "nil + 1", "[1] [4]", "fn(x) { return x / 0 }(1)", "'a' . ord . chr . push", "[1, 2] . map(fn(x) -> x - 'a')", "eval('1 / 0')", "eval('1 +')", "a", "f()", "t", "a = 5", "x += 1", "fn() -> a", "fn() { a = 1 }", "if true then 1 else a", "let a = 3", "let b = 3", "1 ; 2", "fn g() -> 1", "", " ", "// none", "1 +", ")", "'", "return 1", "break", "struct T(u)", "->v", "(->nope)", "fn(x) -> x->nope", "if true { 1 }", "1\n2", "exit(1", "S(1)", "m->g()", "self", "1 2", "#", "fn(x, x) -> 1", "fn(print) -> 1", "print = 3", "_"];

const PRE: &str = "struct S(v) {\n fn k(self, t) { v = [v, eval(t)]\n return v }\n}\nmodule m {\n fn g(t) -> eval(t)\n}\nlet a = [10], u = 20, n = 0\nfn f(t) { let x = [5], y = 6\n let r = eval(t)\n return (x, y, r) }\nfn apply(h, *z) { print('apply', len(z))\n return h(...z) }\n";
/// Positions of a text within a program
const PLACES: &[&str] = &[
    "print(repr(eval($)))", "let r = eval($)\nprint(repr(r), a, u)", "print(1, eval($), 2)", "print([1, eval($), [eval($)], 2])", "print({a: eval($)})", "print((0, eval($)))", "print([...eval($), 8])", "print(7, ...eval($))", "print(repr(f($)))", "print(f($), f($))",
    "let x = 1\nif x { let y = 2\n let r = eval($)\n print(x, y, r) }", "for i in range(3) { let z = i * 2\n let h = fn() { z += 1\n return (z, eval($)) }\n print(h(), h(), i) }", "while n < 2 { n += 1\n print(eval($)) } else { print('e', eval($)) }",
    "print([$, $] . map(eval))", "print([1, 2] . map(fn(q) -> [q, eval($), q]))", "print([3, 1, 2] . sort_by(fn(p, q) { eval($)\n return p - q }))", "print(range(4) . filter(fn(q) { eval($)\n return q % 2 }))", "print([1, 2, 3] . reduce(fn(p, q) { let w = eval($)\n return p + q }))",
    "fn g(p, q = eval($)) -> [p, q]\nprint(g(1), g(1, 2), g(...[3]))", "print(S(eval($))->v)", "let s = S(1)\nprint(s->k($), s->k($), s->v)", "print(m->g($))", "print(eval(eval(repr($))))", "print(eval('eval(' + repr($) + ')'))",
    "let e = memoize(eval)\nprint(e($) == e($))", "print($ . eval)", "print([eval, str] . map(fn(g) -> g($)))", "fn g() { return eval($) }\nprint(g(), [g()], g())", "let l = [1, 2, 3]\nl[1] = eval($)\nprint(l)", "let l = [1, 2, 3]\nl[eval('1')] = eval($)\nprint(l, l[eval('0')])", "u = eval($)\nprint(u, a)", "let p, *q = [0, eval($), eval('1')]\nprint(p, q)", "print(if eval($) then eval($) else 'none')", "print(eval($) and 5, eval($) or 6)", "print(eval($) is list, typeof(eval($)))",
    "let d = dict(fn(k) { return eval($) })\nprint([d[1], d[1], d])", "let hs = []\nfor i in range(2) { let z = i\n hs . push(fn() { z += 1\n return [z, eval($)] }) }\nprint(hs . map(fn(h) -> h()), hs . map(fn(h) -> h()))", "print('%s %s' % (eval($), u))", "assert eval($) == 0 : [eval($)]", "print(fn() { let v = 1\n return [eval($), v] }())", "fn rec(k) { let v = [k]\n if k == 0 { return eval($) }\n let r = rec(k - 1)\n return [v, r] }\nprint(rec(2), rec(1))", "print(eval($) . repr . eval . repr == repr(eval($)))", "print(1 + len([eval($), 2 * eval('3 - 1')]) - eval('4'))",
    "{ 1 }\nprint(eval($))", "print(eval($), exit)", "do { let a = eval($)\n print(a)\n n += 1 } while n < 2\nprint(a)", "eval($)\neval($)\nprint(a, u, n)", "let a1 = eval($), a2 = eval($), a3 = [eval($)]\nprint(a1, a2, a3, a1 == a2)", "apply(eval, $) . print\nprint(apply(m->g, $))",
];
/// Uses of a function that was made from a text
const USES: &[&str] = &["print(repr(h($v)))", "print(h($v), h($v))", "print([h] . map(fn(g) -> g($v)), a, u)", "print([$v, $v] . map(h))", "fn g(x) { let y = [x]\n let r = h(x)\n return [y, r, x] }\nprint(g($v), g($v))", "for i in range(2) { let z = i\n print(h($v), z)\n let c = fn() { z += 1\n return (z, h($v)) }\n print(c(), c()) }", "let r = h($v)\nprint(r is function and [r(), r()])", "let h2 = eval(t)\nlet r = h($v), r2 = h2($v)\nprint(r is function and [r(), r(), r2(), r()], h == h2)", "print($v . h, ($v . h) == h($v))", "let e = memoize(h)\nprint(e($v) == e($v))", "print(apply(h, $v), apply(h, $v, 1), apply(h))", "print(h($v)(7)(8))", "print(eval('fn(k, z) -> k(k(z))')(h, $v))", "let k = eval(t) . h\nprint(k($v))", "struct Q(w) { fn m(self, x) { return [w, h(x)] }\n}\nprint(Q(3)->m($v))"];
const ARGS: &[&str] = &["1", "[1, 2]", "'3'", "S([4])", "nil", "[[5, 6], 7]", "fn(x) -> 9"];

fn run(cx: &mut Cx) {
    cx.explore("every text at every position", |ch| {
        let t = match ch.pick(3) { 0 => *ch.of(VALUES), 1 => *ch.of(FUNCTIONS), _ => *ch.of(FAILING) };
        let p = *ch.of(PLACES);
        Some((format!("{}{}\nprint('end', a, u, n)\n", PRE, p.replace('$', &quote(t))), ch.flag()))
    }, |cx, (s, opt)| conform_src(cx, s, opt, "eval in a program"));
    cx.explore("functions made from texts", |ch| {
        let t = *ch.of(FUNCTIONS);
        let u = *ch.of(USES);
        let v = *ch.of(ARGS);
        // endless recursion
        if t == "fn(f) -> f(f)" && u.contains(" . h\n") { return None; }
        let made = *ch.of(&["let h = eval(t)", "let h = f(t)[2]", "let h = [t] . map(eval) . reduce(fn(p, q) -> p)", "let h = nil\nfor i in range(2) { h = eval(t) }", "let h = eval('fn(t) -> eval(t)')(t)"]);
        Some((format!("{}let t = {}\n{}\n{}\nprint('end', a, u, n)\n", PRE, quote(t), made, u.replace("$v", v)), ch.flag()))
    }, |cx, (s, opt)| conform_src(cx, s, opt, "function made from a text"));
    cx.explore("two texts in one program", |ch| {
        let pick = |ch: &mut crate::engine::Ch| -> &str { if ch.flag() { ch.of::<&str>(VALUES) } else { ch.of::<&str>(FUNCTIONS) } };
        let (s, t) = (pick(ch), if ch.pick(3) == 2 { *ch.of::<&str>(FAILING) } else { pick(ch) });
        let p = *ch.of(&["let p = eval($1)\nlet q = eval($2)\nprint(repr([p, q, eval($1) == p]))", "print([eval($1), [eval($2), eval($1)], eval($2)])", "fn g(x = eval($1), y = eval($2)) -> [y, x]\nprint(g(), g(1))", "for i in range(2) { print(if i then eval($1) else eval($2)) }", "let p = eval($1)\nlet q = [p, p] . map(fn(z) -> [z, eval($2)])\nprint(q, p)", "print(eval('[' + $1 + ', (' + $2 + ')]'))"]);
        Some(format!("{}{}\nprint('end', a, u, n)\n", PRE, p.replace("$1", &quote(s)).replace("$2", &quote(t))))
    }, |cx, s| conform_src(cx, s, false, "two texts"));
    // the text denotes the value of the expression
    let ops = ["+", "-", "*", "/", "//", "%", "**", "==", "<", "and", "or", "in", "is", "<<", "|", "max=", ".", "is not", "then", "&", ">=", "^", ", "];
    cx.explore("all expressions of three operands", |ch| {
        let v = ["2", "'ab'", "[1, 2]", "nil", "(fn(x) -> [x, x])", "{1: 2}", "list"];
        let mut s = String::new();
        for k in 0..3 {
            if k > 0 { let o = *ch.of(&ops); if o == "max=" || o == "then" || o == "//" { return None; } s += &format!(" {} ", o); }
            let un = if k == 1 { *ch.of(&["", "-", "not "]) } else { "" };
            s += un;
            s += ch.of::<&str>(&v);
        }
        Some(s)
    }, |cx, e| conform_src(cx, format!("let a = 1\nprint(repr(eval({})))\nlet r = {}\nprint(repr(r))\n", quote(&e), if e.contains(" ,  ") { format!("({})", e) } else { e.clone() }), false, "text and expression"));
    // histories: the steps share variables, closures, pending operands and texts
    let n = cx.tier.pick(4, 5);
    const STEPS: &[&str] = &["r . push(eval('1 + 2'))", "let h = eval('fn(x) { let y = [x] ; fn() { y . push(0) ; y } }')(k)\n fs . push(h)", "r . push(fs . map(fn(g) -> g()))", "k += eval(str(k))", "fs . push(eval('fn() -> [1, 2] . map(fn(x) -> eval(str(x)))'))", "let z = k\n fs . push(fn() { z += eval('2')\n return z })", "for i in range(2) { let w = i + k\n fs . push(fn() { w += 10\n return eval('fn(w) -> [w]')(w) }) }", "r . push([k, [eval('7'), eval('eval(\\'8\\')')], k])", "r = eval('fn(r) -> [...r, len(r)]')(r)", "let p, (q, s) = eval('[1, [2, 3]]')\n r . push([p, q, s])", "r . push(eval('fn(n, s) { if n == 0 { return [] } ; return [n, ...eval(s)(n - 1, s)] }')(3, 'fn(n, s) { if n == 0 { return [] } ; return [n, ...eval(s)(n - 1, s)] }'))", "t = repr(r)\n r = eval(t)", "if eval('true') { let k = eval('5')\n r . push(k) }"];
    cx.explore("histories of texts in a function", |ch| {
        let k = 1 + ch.pick(n);
        let mut b = String::new();
        for _ in 0..k {
            let s = *ch.of(STEPS);
            // one declaration per block
            if s.starts_with("let ") { b += &format!(" if true {{ {} }}\n", s); } else { b += &format!(" {}\n", s); }
        }
        let w = *ch.of(&["fn g(k) {\n let r = [], fs = [], t = ''\n$\n return [k, r, fs . map(fn(g) -> g())]\n}\nprint(g(1))\nprint(g(2), 3)\n", "let k = 1, r = [], fs = [], t = ''\n$\nprint(k, r, fs . map(fn(g) -> g()), t)\n", "let k = 1, fs = [], t = ''\nfor v in range(2) { let r = [v]\n$ print(k, r, fs . map(fn(g) -> g()), t) }\n"]);
        Some(w.replace('$', &b))
    }, |cx, s| conform_src(cx, s, false, "history"));
    // sessions which go on after a text failed
    const INPUTS: &[&str] = &["eval('1 +')", "eval('fn(x) -> x->nope')", "eval('fn((x, y)) -> zz')", "eval('fn() -> [1000, \\'lost\\', q]')", "eval('fn((x, *_), y) { x / 0 }')([1, 2], 3)", "eval('\\'')", "let f = eval('fn((x, y)) -> [y, x]')", "f((1, 2))", "let p, (q, r) = [1, [2, 3]]", "[p, q, r]", "struct S(nope, b)", "S(1, 2)->nope", "let g = fn((x, y), z = 3) -> [x, y, z]", "g([1, 2])", "eval('fn(x) -> x->b')(S(1, 2))", "1 / 0", "if true { let x = 1; l . push(fn() { x += eval('1') ; x }) ; eval('nil - 1') }", "l . map(fn(h) -> h())", "let c = eval('fn(x) { let y = x ; fn() { y += 1 ; y } }')(5)", "c()", "eval('zz = 1')", "[1, [2, eval('(1')]]", "let zz = 1", "eval('zz')", "'lost' + str(1000)"];
    let n = cx.tier.pick(3, 4);
    cx.explore("sessions", |ch| {
        let k = 1 + ch.pick(n);
        let mut v: Vec<&str> = vec!["let l = []"];
        for _ in 0..k { v.push(ch.of::<&str>(INPUTS)); }
        v.extend(["l . map(fn(h) -> h())", "eval('fn((x, y)) -> y')([1, 2])", "let (i1, i2), i3 = ((1, 2), 3)", "i1, i2, i3", "struct Z(nope, b)", "Z(1, 2)->b", "(->nope)(Z(3, 4))", "1 / 0"]);
        Some(v.into_iter().map(String::from).collect::<Vec<_>>())
    }, |cx, s| c19::judge(cx, s, "session"));
}
