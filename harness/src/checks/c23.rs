//! C23: memory. Every program is executed twice: as it is, and with all freed memory overwritten and held back before it is
//! used again. Both executions have to show the same behaviour, and after the second one, no block that it allocated remains,
//! unless the values of the program have cycles (decided by the reference evaluator, or excluded by construction).
use super::*;
use crate::model::parse;

pub const META: Meta = Meta { id: "C23", run, assumptions: &["programs whose values have cycles of references, according to the reference evaluator, may keep memory; for these only reuse of freed memory is detected", "freed blocks of more than 4096 bytes, and blocks freed more than 4096 frees before, are not overwritten"] };

#[derive(Clone, Copy, PartialEq)]
enum Cycles { None, Unknown }

fn judge(cx: &mut Cx, i: Input, c: Cycles, note: &str) {
    let a = match cx.exec(&i) { Some(o) => o, None => return };
    let (b, blocks, bytes) = match cx.exec_measured(&i, true) { Some(o) => o, None => return };
    cx.fresh(format!("{:?}", i).as_bytes());
    cx.transitions += 1;
    if a.end == End::Panic { cx.stat("programs which crash (see C17)", 1); return; }
    cx.validated += 1;
    if a != b { return cx.fail(&i, note, format!("the same as if freed memory is not overwritten:\n{}", a.canon()), &b); }
    cx.stat(match a.end { End::Error => "programs which end by an error", End::Compile => "programs which do not compile", _ => "programs which end normally or by exit" }, 1);
    if c == Cycles::Unknown { cx.stat("programs whose values may have cycles", 1); return; }
    if (blocks, bytes) == (0, 0) { return; }
    // memory which is allocated once for the process
    let (_, blocks, bytes) = match cx.exec_measured(&i, false) { Some(o) => o, None => return };
    let (o, more, n) = match cx.exec_measured(&i, false) { Some(o) => o, None => return };
    if (blocks, bytes) != (0, 0) && (more, n) != (0, 0) { cx.fail(&i, note, format!("nothing remains allocated, instead of {} blocks and {} bytes", more, n), &o); }
}

/// A program of any check
pub fn program(cx: &mut Cx, src: String, note: &str) {
    let c = match parse::parse(&src) { Some(p) if interp::acyclic(&p) => Cycles::None, _ => Cycles::Unknown };
    judge(cx, Input::Run { src, opt: false, stdin: String::new() }, c, note);
}
/// A session of any check, whose values may have cycles
pub fn session(cx: &mut Cx, lines: Vec<String>, note: &str) { judge(cx, Input::Repl { lines }, Cycles::Unknown, note) }
fn none(cx: &mut Cx, src: String, note: &str) { judge(cx, Input::Run { src, opt: false, stdin: "a line of text\nrest\n".into() }, Cycles::None, note) }

const PRE: &str = "struct S(a, b) { fn m(self, z) -> [self->a, z] }\nmodule M { fn g(x) -> [x, 'from a module, with a long text'] }\n";

/// Values with memory of their own
const VALUES: &[&str] = &[
    "'a text that is not short'", "[1, 'abcdefghijklmnop']", "vector('abcdefghijkl', [2])", "{[3], 'opqrstuvwxyz'}", "{'abcdefghijklm': [1], 2: 'x'}", "heap([(2, 'xxxxxxxxxxxxxxxx'), (1, 'y')])", "S([1], 'abcdefghijklmno')", "fn(*x) -> [x, 'jklmnopqrstuvwxyz']",
    "rational(1 << 70, 3)", "range(3)", "enumerate(['abcdefghijklmno', [4]])", "memoize(fn(x) -> [x])", "map(fn(x) -> [x, x])", "(+ 'a text to be added')", "default([5], {1: [2]})", "[[[]], [['deep in a list']]]", "2", "nil", "S", "(->a)", "[1:]", "'ab'", "(fn(k) { fn(x) { k = [k, x]; k } })('captured and changed')", "S([1], 2)->m", "print", "eval('[1, 2]')", "M->g", "[-1:]", "reduce(max)", "'%s and more of it' % [[1]]",
];
const FEW: &[&str] = &["'a text that is not short'", "[1, 'abcdefghijklmnop']", "{'abcdefghijklm': [1], 2: 'x'}", "fn(*x) -> [x, 'jklmnopqrstuvwxyz']", "fn(x) -> [x]", "2", "nil", "S([1], 'abcdefghijklmno')"];

fn body(e: &str) -> String { format!("{}fn body() {{\n let w = ['kept in a variable']\n let r = {}\n print(repr(r))\n for x in [r] {{ w . push(x) }}\n return [r, w]\n}}\nlet r = body()\nprint(repr(r))\nr = nil\n{}\n", PRE, e, e) }

fn library(cx: &mut Cx) {
    let fns: Vec<&str> = crate::model::natives::names().iter().copied().filter(|n| !["write_text", "read_text", "env", "argv", "monitor"].contains(n)).collect();
    let t = cx.thorough();
    cx.explore("library, up to two arguments", |ch| { let f = *ch.of(&fns); let k = ch.pick(3); Some(format!("{}({})", f, (0..k).map(|_| *ch.of(VALUES)).collect::<Vec<_>>().join(", "))) }, |cx, e| none(cx, body(&e), "library"));
    let v: &[&str] = if t { &VALUES[..17] } else { FEW };
    cx.explore("library, three arguments", |ch| { let f = *ch.of(&fns); Some(format!("{}({})", f, (0..3).map(|_| *ch.of(v)).collect::<Vec<_>>().join(", "))) }, |cx, e| none(cx, body(&e), "library"));
    cx.explore("partial calls", |ch| { let f = *ch.of(&fns); let g = *ch.of(&["#(@)(@)", "@ . #(@)", "(# . #(@))(@)", "#(@, @)(@)", "map(#(@))([@])", "#(...@)", "[# , @] . map(fn(x) -> x(@))"]); let mut s = g.replace('#', f); while s.contains('@') { s = s.replacen('@', ch.of::<&str>(FEW), 1); } Some(s) }, |cx, e| none(cx, body(&e), "partial calls"));
}

fn operators(cx: &mut Cx) {
    const OPS: &[&str] = &["+", "-", "*", "/", "%", "**", "<<", "&", "|", "^", "<", "<=", "==", "!=", "in", "is", "and", "or", "max", "min", ".", "not in", "is not"];
    cx.explore("operators", |ch| { let (a, o, b) = (*ch.of(VALUES), *ch.of(OPS), *ch.of(VALUES)); Some(match ch.pick(3) { 0 => format!("({}) {} ({})", a, o, b), 1 => format!("[{}, {}] . reduce(fn(a, b) -> a {} b)", a, b, o), _ => format!("({} {})({})", "$", o, b).replace('$', &format!("({})", a)) }) }, |cx, e| none(cx, body(&e), "operators"));
    const STMTS: &[&str] = &[
        "p[@] = @", "p[@] += @", "p->a = @", "p->a += @", "p->a .= @", "p->b max= @", "p = @", "p += @", "p .= @", "p, q = @", "(p, *q) = @", "p, q = q, @", "let a, b = @", "let (a, *b), _ = (@, @)", "let *a, b = @", "for a in @ { p = a }", "for a, b in @ { q = [a, b] }", "for a in @ { break }", "p[1:]", "p[@:@]", "p(@)", "p(@, @)", "p(...@)", "p->m(@)", "M->g(@)", "assert p : @", "assert @ == @", "p[@]", "[...p, @]", "{...p, @}", "{@: @}", "(@, ...p)", "if @ { p = @ } else { q = @ }", "while @ { p = @; break } else { q = 1 }", "exit", "p[0][0] = @", "q = fn() -> p; p = @; q()", "q = fn() { p = [@]; p }; q(); q()", "eval('[1, S]')", "p = [@ . q]", "do { p = @ } while false", "-p", "!p", "not p", "p in @", "S(@)", "S(@, @)", "S(p, q)->b", "'%s %r' % (@, @)", "p += @; p += @", "typeof(p)(@)", "p = q; p = p; q = @", "do { let k = @; p = fn() -> k; k = @ }; p()", "loop { let k = p; q = fn() -> [k, @]; break }; q()", "for k in [p, @] { q = [q, fn() -> k] }",
    ];
    cx.explore("statements", |ch| {
        let p = *ch.of(VALUES);
        let s = *ch.of(STMTS);
        let holes = s.matches('@').count();
        let mut s = s.to_string();
        while s.contains('@') { let v: &[&str] = if holes == 1 { VALUES } else { FEW }; s = s.replacen('@', ch.of::<&str>(v), 1); }
        let w = *ch.of(&["let p = #, q = 'another text'\n@\nprint(repr([p, q]))\n", "fn body() {\n let p = #, q = 'another text'\n @\n print(repr([p, q]))\n return p\n}\nprint(body())\n", "fn body(p) {\n let q = 'another text'\n let f = fn() {\n @\n print(repr(p))\n return q }\n return f\n}\nlet g = body(#)\ng()\ng = g()\n"]);
        if w.starts_with("fn body(p)") && s.contains("q = fn") { return None; }
        Some(format!("{}{}", PRE, w.replace('#', p).replace('@', &s)))
    }, |cx, s| program(cx, s, "statements"));
    // chains of values, which are taken apart while they are iterated over, sorted, or looked up
    const OUTER: &[&str] = &[
        "for c in v { v = nil; print(c) }", "for c in v { v = [c]; print(c, v) }", "for a, b in enumerate(v) { v = b; print(a, b) }", "print(v . map(fn(c) { v = nil; c }))", "print(v . filter(fn(c) { v = 'other'; c != 'zz' }))", "print(v . sort_by(fn(a) { v = nil; str(a) }))", "print(v . sort_by(fn(a, b) { v = nil; w = [a]; len(str(a)) - len(str(b)) }))", "print(v . reduce(fn(a, b) { v = [a]; w = b; [a, b] }))", "print(v . group_by(fn(c) { v = c; str(c) }))", "print(v . any(fn(c) { v = nil; w = c; false }), w)", "print(v . flat_map(fn(c) { v = nil; [c, c] }))", "print(v . min_by(fn(c) { v = nil; str(c) }))", "print(v . index_of(fn(c) { v = nil; false }))", "let f = fn(a) { v = nil; [a] }; print(f(v), f(w))", "print([v, v = nil, v, w = 1])", "print((fn(a, b) { v = nil; [a, b] })(v, v))", "v[0] = v = ['x']; print(v, w)", "print(v[v = 0])", "print(v . map(fn(c) { v = nil }) . len, v)", "w = fn() -> v; v = w(); w = nil; print(v)", "let it = v; v = nil; for c in it { it = c; print(it) }", "print('%s %s' % [v, v = nil])", "assert v == (v = nil) : [v, 'm']", "print(replace('.', fn(m) { v = nil; [m] . str }, str(v)))", "print(v . zip(v = [1, 2, 3]))", "for i in range(3) { v = [v, i] }; print(v)", "for i in range(5) { v = (i, v); w = fn() -> v }; print(w())", "for c in v { if c == 'zz' { break }; v = c; if w { exit } }", "for c in v { v = nil; c[0][0] }", "fn r(x) { v = nil; if x { r(nil) } else { nil[0] } }; r(v)", "for c in v { for d in v { v = [d]; print(c, d) } }", "let (a, *b) = v; v = nil; print(a, b)", "for c in v { w = eval('[1, 2]'); v = w; print(c, v) }", "let m = memoize(fn(x) { v = nil; [x, w] }); print(m(v), m(v), m(w))", "print(eval(repr(v = [1])), v)", "print(copy(v), v = nil)", "v = default(v, {1: v}); print(v[3], v = 2)", "print([v] . map(->a), v = nil)", "print(v . permutations(2) . map(fn(c) { v = nil; c }))", "v = v . list . map(fn(c) -> fn() -> c); print(v . map(fn(c) -> c()))", "print(S(v, v = nil), M->g(v), S(w, w)->m(v))",
    ];
    const SUBJECT: &[&str] = &["'a text of several words'", "['first in list', 'second in list']", "('first in vector', ['second'])", "{'only in the set'}", "{'key of the dict': ['value of the dict']}", "heap(['bbbbbbbbbbbbb', 'aaaaaaaaaaaaaaaaa'])", "S(['field a'], 'field b')", "range(2)", "enumerate(['one in enumerate'])", "'éé ☃'", "[['nested in list'] , [['twice']]]", "memoize(fn(x) -> [x])", "nil", "'ab'"];
    cx.explore("values replaced while they are in use", |ch| {
        let (e, v) = (*ch.of(OUTER), *ch.of(SUBJECT));
        let w = *ch.of(&["let v = #, w = nil\n@\nprint(repr(v))\n", "fn body() {\n let v = #, w = ['w']\n @\n print(repr(v))\n}\nbody()\nbody()\n", "fn body() {\n let v = #, w = 'w'\n let f = fn() {\n @\n }\n return f\n}\nbody()()\n", "fn body(v, w?) {\n @\n return fn() -> v\n}\nprint(repr(body(#)()))\n"]);
        Some(format!("{}{}", PRE, w.replace('#', v).replace('@', e)))
    }, |cx, s| program(cx, s, "values in use"));
}

/// Histories of a few variables of all kinds
fn histories(cx: &mut Cx) {
    const ACTS: &[&str] = &["a = ['new', a]", "b = a", "a = b", "b = fn() -> a", "b = fn() { a = [a]; a }", "a = b()", "c . push(a)", "b = c . pop", "c = [a, b]", "c[0] = b", "d['k'] = a", "a = d['k']", "d = {a: b}", "a = S(a, b)", "b = a->b", "a->a = 'set'", "f(a)", "b = g(a)", "c . clear", "for x in c { b = x; a = [x] }", "a = nil", "c = c . map(fn(x) -> [x])", "a = eval('[1]')", "if a { let k = a; b = fn() -> k }", "a, b = b, a", "h . push(a)", "b = h . pop", "a = m(b)", "nil[0]", "exit"];
    let n = cx.tier.pick(3, 4);
    cx.explore("histories", |ch| {
        let k = 1 + ch.pick(n);
        let acts: &[&str] = if k == 4 { &ACTS[..15] } else { ACTS };
        let v: Vec<&str> = (0..k).map(|_| *ch.of(acts)).collect();
        // nothing follows after the end
        if v[..k - 1].iter().any(|s| *s == "nil[0]" || *s == "exit") { return None; }
        let w = *ch.of(&["let a = 'a text, in a', b = ['b'], c = [], d = {'k': ['in k']}, h = heap([])\nfn f(x) { a = [x] }\nfn g(x) -> fn() -> x\nlet m = memoize(fn(x) -> [x, 'memoized'])\n@\nprint(repr([a, c, d, h]))\n", "fn main() {\n let a = 'a text, in a', b = ['b'], c = [], d = {'k': ['in k']}, h = heap([])\n fn f(x) { a = [x] }\n fn g(x) -> fn() -> x\n let m = memoize(fn(x) -> [x, 'memoized'])\n @\n print(repr([a, c, d, h]))\n return c\n}\nprint(main())\n"]);
        Some(format!("{}{}", PRE, w.replace('@', &v.join("\n "))))
    }, |cx, s| program(cx, s, "histories"));
    // sessions: the values of earlier inputs, failures at any depth
    const LINES: &[&str] = &["let a = ['text in a']", "let b = fn() -> a", "fn f(x) { let k = [x]; fn() -> k }", "let c = f('argument of f')", "c()", "a = [a[0], c]", "a[7]", "[1, [2, nil - 'text']]", "let d = 'x' + nil", "struct S(v) { fn m(self) -> [self->v] }", "S(['field'])->m()", "let e = )", "undeclared", "for x in ['text one', 'text two'] { let k = x; if k == 'text two' { nil[k] } }", "exit", "eval('[1, )')", "f(1)()", "'text of a line'"];
    let n = cx.tier.pick(3, 4);
    cx.explore("sessions", |ch| { let k = 1 + ch.pick(n); Some((0..k).map(|_| ch.of::<&str>(LINES).to_string()).collect::<Vec<_>>()) }, |cx, lines| judge(cx, Input::Repl { lines }, Cycles::None, "session"));
}

fn run(cx: &mut Cx) {
    cx.opt_compare = true;
    cx.memory = true;
    library(cx);
    operators(cx);
    histories(cx);
    for id in ["C10", "C25", "C07", "C13"] { c14::sub(cx, id); }
    if cx.thorough() { for id in ["C04", "C06", "C12", "C24", "C26"] { c14::sub(cx, id); } }
}
