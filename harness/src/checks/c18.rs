//! C18: runtime errors. Programs are composed of a failing operation, at a syntactic position, inside of a chain of user functions of
//! every kind, each called at a syntactic position. Failing operation and calls are delimited in the template, so the line of the
//! failure, and the function and line of each trace entry, are known by construction; message and previous output are those
//! of the reference model.
use super::*;
use crate::engine::Ch;

pub const META: Meta = Meta { id: "C18", run, assumptions: &["a location must lie within the text of the failing operation (or of the call): for operations on one line this fixes the line", "call chains of at most three functions, and recursion up to depth 12"] };

/// Positions of an expression; statements when they contain a statement
const EXPRS: &[&str] = &["@", "1 + @", "@ + 1", "1 +\n @", "[\n 1,\n @,\n 2 ]", "print(1,\n  @\n)", "{1:\n @}", "if true then\n @ else 2", "(\n@\n)", "[1, 2][@]", "not\n @", "1 <\n 2 <\n @", "@\n . print", "'%d' % @", "[1, 2, 3][:\n@]", "... @", "nil == @", "true and\n @", "false or @", "S9(\n@)", "if @ then 1 else 2", "[@] . map(+\n 1)", "[ - @ ]", "1 is not @", "@ [ 0 ]", "@ ( 1 )", "@ -> zq"];
const STMTS: &[&str] = &["@", "let v9 = @", "let v9 = 0\nv9 +=\n @", "let v9, (u9, *_) = @", "if @ {\n print('in')\n}", "if false { } elif\n @ { print('in') }", "while @ {\n print('in')\n}", "for v9 in @ {\n print('in')\n}", "for v9 in [1, 2] {\n print(v9)\n @\n print('after')\n}", "for v9 in [1, 2] {\n if v9 == 2 {\n  @\n }\n print(v9)\n}", "do {\n @\n} while true", "loop {\n let z9 = 1\n @\n}", "assert @", "assert false :\n @", "l9[\n@] = 1", "l9[0] =\n @", "S9(1)->zq = @", "if true {\n let z9 = 3\n if z9 {\n  @ }\n}", "l9[0],\nl9[1] = @", "let v9 = (1,\n @\n ,2)", "let v9 = 1; @; print('after')", "let v9 = 0\nwhile v9 < 3 {\n v9 += 1\n if v9 < 2 { continue }\n @\n}", "if true {\n // comment\n\n @\n} else {\n print('x')\n}", "@ . print"];
const OPS: &[&str] = &["1 / 0", "[1][5]", "nil + 1", "int('x')", "late9", "3(1)", "f9(1, 2, 3)", "S9(1)->zr", "S9(1, 2)", "'a'[nil]", "-('a')", "pop([])", "{1: 2}[3]", "[1, 2] . map(+ nil)", "'%d' % 'x'", "range(1, 2, 0)", "min()", "[3, 'a', nil] . sum", "nil(1)", "[1]([])", "(->zq)(3)", "sort_by(1, [1, 2])", "1 in 2", "char(-1)", "zip()", "2 ** -1", "len(1)", "1 is 2",
    "1\n /\n 0", "int(\n 'x'\n)", "[1][\n 5 ]", "nil\n + 1", "f9(\n1,\n2,\n3)", "[1, 2]\n . map(+ nil)"];
const STMT_OPS: &[&str] = &["assert false", "assert 1 == 2", "assert 1 == 2 : 'why'", "assert 3 < 2 < 1", "let x7, y7 = [1]", "l9[0], l9[1] = [1, 2, 3]", "for x7 in 5 { print(x7) }", "for x7, y7 in [1] { print(x7) }", "l9[5] = 1", "l9[7] += 1", "w9 += nil", "S9(1)->zr = 3", "l9[0] .= 5", "let (x7, *_), y7 = (1, 2)", "w9 max= 'a' - 1", "'abc'[0] = 'x'"];
const PRE: &str = "let l9 = [1, 2], w9 = 4\nstruct S9(zq)\nstruct R9(zr)\nfn f9(x) { return x }\n";
const POST: &str = "\nprint('never')\nlet late9 = 1\n";

/// Delimits the text of the k-th site
fn mark(k: usize, s: &str) -> String { let c = (b'A' + k as u8) as char; format!("\u{1}{}{}\u{2}{}", c, s, c) }

/// Puts an expression at a position
fn put(layout: &str, x: &str) -> String {
    let tight = ["+ @", "@ +", "+\n @", ". print", "not\n", "<\n 2", "% @", "== @", "and\n", "or @", "- @", "is not @", "@ [", "@ (", "@ ->"].iter().any(|t| layout.contains(t));
    layout.replace('@', &if tight { format!("({})", x) } else { x.to_string() })
}

/// Removes the delimiters; the texts' positions (in characters) by site
fn strip(s: &str) -> (String, Vec<(usize, usize)>) {
    let (mut out, mut n, mut at) = (String::new(), 0, vec![(0, 0); 8]);
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1}' || c == '\u{2}' { let k = (it.next().unwrap() as u8 - b'A') as usize; if c == '\u{1}' { at[k].0 = n } else { at[k].1 = n } continue; }
        out.push(c); n += 1;
    }
    (out, at)
}

fn line(src: &str, at: usize) -> usize { src.chars().take(at).filter(|c| *c == '\n').count() + 1 }

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Fn, Arrow, Anon, AnonArrow, Method, Module, Nested, Capture, Map, SortBy, SortCmp, Reduce, Default, ParamDefault, Memo, Partial, DictDefault, Memoized, Spread, Pipe, Local, Replace, GroupBy, NestedArrow, StaticMethod, Variadic, Find }
const KINDS: &[K] = &[K::Fn, K::Arrow, K::Anon, K::AnonArrow, K::Method, K::Module, K::Nested, K::Capture, K::Map, K::SortBy, K::SortCmp, K::Reduce, K::Default, K::ParamDefault, K::Memo, K::Partial, K::DictDefault, K::Memoized, K::Spread, K::Pipe, K::Local, K::Replace, K::GroupBy, K::NestedArrow, K::StaticMethod, K::Variadic, K::Find];
const MAIN_KINDS: &[K] = &[K::Fn, K::AnonArrow, K::Method, K::Nested, K::Map, K::SortCmp, K::Default, K::DictDefault];

/// (global definitions, local definitions, call expression, name in the trace). The body is a statement, or an expression
fn frame(k: K, i: usize, body: &str) -> (String, String, String, String) {
    let b = |s: &str| format!("{{\n print('in {}')\n {}\n print('never {}')\n}}", i, s, i);
    let g = |d: String, c: String, n: String| (d, String::new(), c, n);
    match k {
        K::Fn => g(format!("fn f{}(x) {}\n", i, b(body)), format!("f{}(1)", i), format!("fn f{}(x)", i)),
        K::Arrow => g(format!("fn f{}(x, y) ->\n {}\n", i, body), format!("f{}(1, 2)", i), format!("fn f{}(x, y)", i)),
        K::Anon => g(format!("let f{} = fn(x) {}\n", i, b(body)), format!("f{}(1)", i), "fn _(x)".into()),
        K::AnonArrow => g(format!("let f{} = fn() -> {}\n", i, body), format!("f{}()", i), "fn _()".into()),
        K::Method => g(format!("struct T{}(r{}) {{\n fn h(self) {{ 1 }}\n fn m(self, x) {} }}\n", i, i, b(body)), format!("T{}(1)->m(2)", i), "fn m(self, x)".into()),
        K::StaticMethod => g(format!("struct T{}(r{}) {{\n fn m(x) {} }}\n", i, i, b(body)), format!("T{}->m(2)", i), "fn m(x)".into()),
        K::Module => g(format!("module M{} {{\n fn h(x) {{ 1 }}\n fn m(x) {} }}\n", i, b(body)), format!("M{}->m(2)", i), "fn m(x)".into()),
        K::Nested => (String::new(), format!("fn f{}(x) {}\n", i, b(body)), format!("f{}(1)", i), format!("fn f{}(x)", i)),
        K::NestedArrow => (String::new(), format!("fn f{}(x) -> {}\n", i, body), format!("f{}(1)", i), format!("fn f{}(x)", i)),
        K::Capture => (String::new(), format!("let c{} = 'cap'\nfn f{}(x) {{\n print(c{}, x)\n {}\n print('never') }}\n", i, i, i, body), format!("f{}(1)", i), format!("fn f{}(x)", i)),
        K::Map => g(format!("fn f{}(x) {}\n", i, b(body)), format!("[1, 2] . map(f{})", i), format!("fn f{}(x)", i)),
        K::SortBy => g(format!("fn f{}(x) {}\n", i, b(body)), format!("[1, 2] . sort_by(f{})", i), format!("fn f{}(x)", i)),
        K::SortCmp => g(format!("fn f{}(x, y) {}\n", i, b(body)), format!("sort_by(f{}, [1, 2])", i), format!("fn f{}(x, y)", i)),
        K::Reduce => g(format!("fn f{}(x, y) {}\n", i, b(body)), format!("[1, 2] . reduce(f{})", i), format!("fn f{}(x, y)", i)),
        K::Default => g(format!("fn f{}(x, y = 1, z = 2) {}\n", i, b(body)), format!("f{}(1, 3)", i), format!("fn f{}(x, y, z)", i)),
        K::ParamDefault => g(format!("fn f{}(x, y = {}) {{ print('never')\n }}\n", i, body), format!("f{}(1)", i), format!("fn f{}(x, y)", i)),
        K::Memo => g(format!("@memoize\nfn f{}(x) {}\n", i, b(body)), format!("f{}(1)", i), format!("fn f{}(x)", i)),
        K::Memoized => g(format!("let f{} = memoize(fn(x) {})\n", i, b(body)), format!("f{}(1)", i), "fn _(x)".into()),
        K::Partial => g(format!("fn f{}(x, y) {}\nlet p{} = f{}(1)\n", i, b(body), i, i), format!("p{}(2)", i), format!("fn f{}(x, y)", i)),
        K::DictDefault => g(format!("fn f{}() {}\nlet d{} = {{1: 2}} . default(f{})\n", i, b(body), i, i), format!("d{}[7]", i), format!("fn f{}()", i)),
        K::Spread => g(format!("fn f{}(x, y) {}\n", i, b(body)), format!("f{}(... l9)", i), format!("fn f{}(x, y)", i)),
        K::Variadic => g(format!("fn f{}(x, *y) {}\n", i, b(body)), format!("f{}(1, 2, 3)", i), format!("fn f{}(x, y)", i)),
        K::Pipe => g(format!("fn f{}(x) {}\n", i, b(body)), format!("1 . f{}", i), format!("fn f{}(x)", i)),
        K::Local => (String::new(), format!("let f{} = fn((x, y), z) {}\n", i, b(body)), format!("f{}((1, 2), 3)", i), "fn _((x, y), z)".into()),
        K::Replace => g(format!("fn f{}(x) {}\n", i, b(body)), format!("'abc' . filter(f{})", i), format!("fn f{}(x)", i)),
        K::GroupBy => g(format!("fn f{}(x) {}\n", i, b(body)), format!("range(3) . group_by(f{})", i), format!("fn f{}(x)", i)),
        K::Find => g(format!("fn f{}(x) {}\n", i, b(body)), format!("index_of(f{}, [4])", i), format!("fn f{}(x)", i)),
    }
}
fn expr_body(k: K) -> bool { matches!(k, K::Arrow | K::AnonArrow | K::ParamDefault | K::NestedArrow) }

/// The trace entries of a report, with repetitions expanded
pub fn trace(err: &str) -> Option<Vec<(String, usize)>> {
    let mut v: Vec<(String, usize)> = Vec::new();
    for l in err.lines() {
        if let Some(r) = l.strip_prefix("  at: `") {
            let (n, k) = r.rsplit_once("` (line ")?;
            v.push((n.into(), k.strip_suffix(')')?.parse().ok()?));
        } else if let Some(r) = l.strip_prefix("  ... above line repeated ") {
            let k: usize = r.strip_suffix(" more time(s) ...")?.parse().ok()?;
            let x = v.last()?.clone();
            for _ in 0..k { v.push(x.clone()); }
        }
    }
    Some(v)
}

/// Runs a program with marked sites (0: the failing operation, 1..: the calls), and the names of the functions
fn judge(cx: &mut Cx, marked: &str, names: &[String], opt: bool, note: &str) {
    let (src, at) = strip(marked);
    let m = predict(&src);
    let i = Input::Run { src, opt, stdin: String::new() };
    let o = match cx.exec(&i) { Some(o) => o, None => return };
    let src = match &i { Input::Run { src, .. } => src, _ => return };
    cx.fresh(src.as_bytes());
    cx.transitions += 1;
    if m.end == Err(Er::Skip) { cx.stat("not judged", 1); return; }
    cx.validated += 1;
    // the optimizer reports errors of constant operations when compiling
    let early = opt && o.end == End::Compile && (m.end == Err(Er::Any) || m.end == Err(Er::Msg(o.first().to_string())));
    if !early { if let Some(e) = disagree(&m, &o) { return cx.fail(&i, note, e, &o); } }
    if o.end != End::Error && !early { cx.stat("did not fail", 1); return; }
    cx.stat("errors located", 1);
    let d = match c16::diagnostics(&o.err, src, "<t>") { Ok(d) => d, Err(e) => return cx.fail(&i, note, format!("a well formed report ({})", e), &o) };
    let (a, b) = at[0];
    if d.len() != 1 || d[0].eof || d[0].from < (if line(src, d[0].from) == line(src, a) { d[0].from.min(a) } else { a }) || d[0].from > b || (line(src, d[0].from) == line(src, d[0].to) && line(src, a) == line(src, b) && !(a <= d[0].from && d[0].to <= b)) || line(src, d[0].from) < line(src, a) || line(src, d[0].to) > line(src, b) {
        return cx.fail(&i, note, format!("the error is located at line {} to {}, inside of `{}`", line(src, a), line(src, b), src.chars().skip(a).take(b - a).collect::<String>()), &o);
    }
    if early { return; }
    let t = match trace(&o.err) { Some(t) => t, None => return cx.fail(&i, note, "a trace of the documented format".into(), &o) };
    let exp: Vec<String> = names.iter().enumerate().map(|(k, n)| format!("{} called in line {} to {}", n, line(src, at[k + 1].0), line(src, at[k + 1].1))).collect();
    if t.len() != names.len() || t.iter().zip(names).enumerate().any(|(k, (x, n))| x.0 != *n || x.1 < line(src, at[k + 1].0) || x.1 > line(src, at[k + 1].1)) {
        return cx.fail(&i, note, format!("the trace {:?}", exp), &o);
    }
    cx.sample(format!("{} => {}", src, o.err));
}

/// A chain of frames around the body (which contains site 0); the call in main is put into the layout `main`
fn chain(kinds: &[K], bodies: &[String], main: &str) -> (String, Vec<String>) {
    // bodies[j] is the layout in the j-th function from the inside; bodies[0] contains the failing operation
    let (mut globals, mut names) = (String::new(), Vec::new());
    let mut body = bodies[0].clone();
    let mut locals = String::new();
    for (j, k) in kinds.iter().enumerate() {
        let (g, l, c, n) = frame(*k, j, &format!("{}{}", locals, body));
        names.push(n);
        globals += &g;
        locals = l;
        let lay = if j + 1 < kinds.len() { bodies[j + 1].clone() } else { main.to_string() };
        body = put(&lay, &mark(j + 1, &c));
    }
    (format!("{}{}print('begin')\n{}{}{}", PRE, globals, locals, body, POST), names)
}

fn local(k: K) -> bool { matches!(k, K::Nested | K::NestedArrow | K::Capture | K::Local) }

fn run(cx: &mut Cx) {
    let t = cx.thorough();
    let ops: Vec<(&str, bool)> = OPS.iter().map(|o| (*o, false)).chain(STMT_OPS.iter().map(|o| (*o, true))).collect();
    // at the top level
    let place = |ch: &mut Ch, o: (&str, bool), e: bool| -> Option<String> {
        let m = mark(0, o.0);
        if o.1 { if e { return None; } return Some(put(*ch.of(&["@", "if true {\n let z9 = 3\n if true {\n  @\n }\n}", "for v9 in [1, 2] {\n print(v9)\n @\n print('after')\n}", "if true {\n @\n}"]), &m)); }
        let x = put(*ch.of(EXPRS), &m);
        if x.starts_with("...") { return None; }
        if e { return Some(x); }
        Some(put(*ch.of(STMTS), &x))
    };
    cx.explore("failing operations at the top level", |ch| { let o = *ch.of(&ops); if o.0 == "late9" { return None; } let p = place(ch, o, false)?; let opt = ch.flag(); Some((p, opt)) }, |cx, (p, opt)| judge(cx, &format!("{}print('begin')\n{}{}", PRE, p, POST), &[], opt, "top level"));
    let some: Vec<(&str, bool)> = if t { ops.clone() } else { vec![("1 / 0", false), ("int('x')", false), ("late9", false), ("f9(1, 2, 3)", false), ("nil\n + 1", false), ("assert 1 == 2", true), ("let x7, y7 = [1]", true), ("l9[5] = 1", true)] };
    cx.explore("inside of one function of each kind", |ch| {
        let k = *ch.of(KINDS);
        let o = *ch.of(&ops);
        let (p, lay) = if t || matches!(k, K::Fn | K::Method | K::Local) { (place(ch, o, expr_body(k))?, *ch.of(if t { &["print(1,\n @\n, 2)", "for v9 in [1, 2] {\n print(v9)\n @\n}"] } else { &["let v9 = @"] })) }
            else { let m = mark(0, o.0); if o.1 && expr_body(k) { return None; } (if o.1 { m } else if expr_body(k) { put(*ch.of(EXPRS), &m) } else { put(*ch.of(STMTS), &m) }, *ch.of(&["let v9 = @", "print(1,\n @\n, 2)", "for v9 in [1, 2] {\n print(v9)\n @\n}"])) };
        if p.contains("...") { return None; }
        Some(chain(&[k], &[p], lay))
    }, |cx, (s, n)| judge(cx, &s, &n, false, "one function"));
    cx.explore("calls at each position", |ch| {
        let k = *ch.of(KINDS);
        let o = *ch.of(&some);
        if o.1 && expr_body(k) { return None; }
        let e = *ch.of(EXPRS);
        let lay = put(*ch.of(STMTS), e);
        if e.starts_with("...") { return None; }
        let opt = if t { ch.flag() } else { false };
        Some((chain(&[k], &[mark(0, o.0)], &lay), opt))
    }, |cx, ((s, n), opt)| judge(cx, &s, &n, opt, "call"));
    let few: Vec<(&str, bool)> = vec![("1 / 0", false), ("late9", false), ("assert 1 == 2", true)];
    let lays: &[&str] = if t { &["@", "let v9 = @", "print(1,\n @)", "for v9 in [1, 2] {\n @\n}", "if @ {\n print(1)\n}", "return @", "[@] . map(+\n 1)", "let v9 = 3; @"] } else { &["@", "print(1,\n @)", "for v9 in [1, 2] {\n @\n}", "return @"] };
    let el: &[&str] = &["@", "[1,\n @]", "if @ then 1 else 2", "1 + (\n@)"];
    cx.explore("two functions", |ch| {
        let (k0, k1) = (*ch.of(KINDS), *ch.of(KINDS));
        if expr_body(k1) && local(k0) { return None; }
        let o = *ch.of(&few);
        if o.1 && expr_body(k0) { return None; }
        let b1 = *ch.of(if expr_body(k1) { el } else { lays });
        let m = *ch.of(&lays[..3.min(lays.len())]);
        Some(chain(&[k0, k1], &[mark(0, o.0), b1.to_string()], m))
    }, |cx, (s, n)| judge(cx, &s, &n, false, "two functions"));
    let ks = if t { KINDS } else { MAIN_KINDS };
    cx.explore("three functions", |ch| {
        let (k0, k1, k2) = (*ch.of(ks), *ch.of(KINDS), *ch.of(ks));
        if expr_body(k1) && local(k0) || expr_body(k2) && local(k1) { return None; }
        let b1 = *ch.of(if expr_body(k1) { &el[..2] } else { &lays[..2] });
        let b2 = *ch.of(if expr_body(k2) { &el[..2] } else { &lays[..2] });
        Some(chain(&[k0, k1, k2], &[mark(0, "1 / 0"), b1.to_string(), b2.to_string()], "@"))
    }, |cx, (s, n)| judge(cx, &s, &n, false, "three functions"));
    recursion(cx);
    evals(cx);
    params(cx);
}

/// Errors of destructuring arguments and missing arguments concern the parameters, or the call
fn params(cx: &mut Cx) {
    cx.explore("arguments that do not fit the parameters", |ch| {
        let (p, a) = *ch.of(&[("(a, b)", "1"), ("(a, b)", "[1]"), ("(a, b)", "[1, 2, 3]"), ("x, (a, b)", "1, 2"), ("(a, b), c = 1", "5"), ("(a, *b)", "[]"), ("c = 1, d = 2, *e", ""), ("(a, (b, c))", "[1, 2]"), ("(a,\n b), c =\n 1", "5"), ("(_, *_, _)", "[1]")]);
        let call = *ch.of(&["$f(^)", "let v9 = $f(^)", "print(1,\n $f(^))", "[$f(^)] . print", "^ . $f", "[^] . map($f)"]);
        if call.contains(". ") && !call.contains("print") && (a.contains(", ") || a.is_empty()) && !a.starts_with('[') { return None; }
        let d = *ch.of(&["fn f1(@) {\n print('in')\n}\n", "fn f1(@) -> 1\n", "let f1 = fn(@) {\n\n 1 }\n"]);
        let n = format!("fn {}({})", if d.starts_with("let") { "_" } else { "f1" }, p.replace('*', "").split(" =").next().unwrap());
        let _ = n;
        Some((format!("{}{}print('begin')\n{}{}", PRE, d.replace('@', &mark(0, p)), call.replace("$f", "f1").replace('^', a), POST), d.starts_with("let")))
    }, |cx, (s, anon)| {
        let (src, at) = strip(&s);
        let m = predict(&src);
        let i = Input::Run { src: src.clone(), opt: false, stdin: String::new() };
        let o = match cx.exec(&i) { Some(o) => o, None => return };
        cx.transitions += 1;
        if m.end == Err(Er::Skip) { cx.stat("not judged", 1); return; }
        cx.validated += 1;
        if let Some(e) = disagree(&m, &o) { return cx.fail(&i, "parameters", e, &o); }
        if o.end != End::Error { return; }
        let d = match c16::diagnostics(&o.err, &src, "<t>") { Ok(d) => d, Err(e) => return cx.fail(&i, "parameters", format!("a well formed report ({})", e), &o) };
        let t = trace(&o.err).unwrap_or_default();
        let (a, b) = (line(&src, at[0].0), line(&src, at[0].1));
        let call = line(&src, src.find("f1(").or_else(|| src.find("f1")).unwrap_or(0));
        let _ = call;
        let inpar = line(&src, d[0].from) >= a && line(&src, d[0].to) <= b;
        if !(inpar && t.len() == 1 && t[0].0.starts_with(if anon { "fn _(" } else { "fn f1(" })) && t.len() != 0 { cx.fail(&i, "parameters", "an error in the parameters of the function, and a trace with its call".into(), &o) }
    });
}

fn recursion(cx: &mut Cx) {
    cx.explore("recursion", |ch| {
        let n = ch.pick(13);
        let v = ch.pick(6);
        let f = mark(0, *ch.of(&["1 / 0", "late9", "[1][5]"]));
        Some((n, v, f))
    }, |cx, (n, v, f)| {
        // (source, trace from the inside: (name, line text))
        let (body, names): (String, Vec<(&str, &str)>) = match v {
            0 => (format!("fn r(n) {{\n if n == 0 {{ {} }}\n r(n - 1)\n}}\nr({})", f, n), (0..n).map(|_| ("fn r(n)", " r(n - 1)")).chain(Some(("fn r(n)", "r(#)"))).collect()),
            1 => (format!("fn r(n) -> if n == 0 then {} else 1 +\n r(n - 1)\n\nr({})", f, n), (0..n).map(|_| ("fn r(n)", " r(n - 1)")).chain(Some(("fn r(n)", "r(#)"))).collect()),
            2 => (format!("fn r(n) {{\n if n == 0 {{ {} }}\n [n - 1] . map(r)\n}}\nr({})", f, n), (0..n).map(|_| ("fn r(n)", " [n - 1] . map(r)")).chain(Some(("fn r(n)", "r(#)"))).collect()),
            3 => (format!("fn p(n) {{\n if n <= 0 {{ {} }}\n q(n - 1)\n}}\nfn q(n) {{\n p(n)\n}}\np({})", f, n), (0..n).flat_map(|_| [("fn p(n)", " p(n)"), ("fn q(n)", " q(n - 1)")]).chain(Some(("fn p(n)", "p(#)"))).collect()),
            4 => (format!("fn r(n) {{\n if n <= 0 {{ {} }}\n if n % 2 == 0 {{\n  r(n - 1)\n }} else {{\n  r(n -  1)\n }}\n}}\nr({})", f, n), (1..=n).map(|k| ("fn r(n)", if k % 2 == 0 { "  r(n - 1)" } else { "  r(n -  1)" })).chain(Some(("fn r(n)", "r(#)"))).collect()),
            _ => (format!("fn s(n) {{\n if n <= 0 {{ {} }}\n s(n - 1)\n}}\nfn r(n) {{\n if n <= 5 {{\n  s(5) }}\n  r(n - 1)\n}}\nr({})", f, n), { let mut v: Vec<_> = (0..5).map(|_| ("fn s(n)", " s(n - 1)")).collect(); v.push(("fn s(n)", "  s(5) }")); for _ in 5..n.max(5) { v.push(("fn r(n)", "  r(n - 1)")); } v.push(("fn r(n)", "r(#)")); v }),
        };
        let (src, at) = strip(&format!("{}{}{}", PRE, body, POST));
        let m = predict(&src);
        let i = Input::Run { src: src.clone(), opt: false, stdin: String::new() };
        let o = match cx.exec(&i) { Some(o) => o, None => return };
        cx.transitions += 1;
        cx.validated += 1;
        if let Some(e) = disagree(&m, &o) { return cx.fail(&i, "recursion", e, &o); }
        let exp: Vec<(String, usize)> = names.iter().map(|(f, l)| { let l = l.replace('#', &n.to_string()); (f.to_string(), src.lines().position(|x| x == l).map_or(0, |p| p + 1)) }).collect();
        match trace(&o.err) { Some(t) if t == exp => {} _ => return cx.fail(&i, "recursion", format!("the trace {:?}", exp), &o) }
        let first = o.err.lines().nth(1).unwrap_or("");
        if first != format!("  at: line {} (<t>)", line(&src, at[0].0)) { cx.fail(&i, "recursion", format!("line {}", line(&src, at[0].0)), &o); }
        if o.err.len() > 4000 { cx.fail(&i, "recursion", "a report with repeated lines left out".into(), &o); }
    });
}

/// Failures inside of evaluated text: the report quotes the text, and the trace goes on in the program
fn evals(cx: &mut Cx) {
    cx.explore("failures in evaluated text", |ch| {
        let (text, l, col) = *ch.of(&[("1 / 0", 1, 2), ("1 +\\n[2][7]", 2, 3), ("(\\n\\nnil + 1)", 3, 4), ("len(\\n3)", 1, 3), ("int('x')", 1, 3)]);
        let q = if text.contains('\'') { text.replace('\'', "\\'") } else { text.to_string() };
        let call = mark(1, &format!("eval('{}')", q));
        let k = ch.pick(3);
        let (src, names): (String, Vec<String>) = match k {
            0 => (format!("print('begin')\n{}", put(*ch.of(STMTS), &call)), vec!["<script>".into()]),
            _ => {
                let kd = *ch.of(KINDS);
                if expr_body(kd) && k == 2 { return None; }
                let (g, lo, c, n) = frame(kd, 5, &(if k == 1 { call } else { format!("for v9 in [1, 2] {{\n print(v9)\n {} }}", call) }));
                (format!("{}print('begin')\n{}{}", g, lo, mark(2, &c)), vec!["<script>".into(), n])
            }
        };
        Some((format!("{}{}{}", PRE, src, POST), names, text.replace("\\n", "\n"), l, col))
    }, |cx, (s, names, text, l, _col)| {
        let (src, at) = strip(&s);
        let m = predict(&src);
        let i = Input::Run { src: src.clone(), opt: false, stdin: String::new() };
        let o = match cx.exec(&i) { Some(o) => o, None => return };
        cx.transitions += 1;
        if m.end == Err(Er::Skip) { cx.stat("not judged", 1); return; }
        cx.validated += 1;
        if let Some(e) = disagree(&m, &o) { return cx.fail(&i, "eval", e, &o); }
        if o.end != End::Error { return; }
        match c16::diagnostics(&o.err, &text, "<eval>") {
            Ok(d) if d.len() == 1 && (line(&text, d[0].from) == l || text.starts_with("len") && line(&text, d[0].from) <= 2) => {}
            x => return cx.fail(&i, "eval", format!("a report that quotes line {} of the evaluated text ({:?})", l, x), &o),
        }
        let t = trace(&o.err).unwrap_or_default();
        // the entry of the evaluated text names the script, or the function it is called in
        let ok = t.len() == names.len() && (0..names.len()).all(|k| t[k].1 >= line(&src, at[k + 1].0) && t[k].1 <= line(&src, at[k + 1].1)) && t.iter().zip(&names).skip(1).all(|(x, n)| x.0 == *n);
        if !ok { cx.fail(&i, "eval", format!("the trace {:?}, at lines {:?}", names, (1..=names.len()).map(|k| line(&src, at[k].0)).collect::<Vec<_>>()), &o); }
    });
}
