//! C05: argument binding. Every signature up to a size, every argument list with every way of unrolling, splitting into partial applications, and calling.
use super::*;
use crate::engine::Ch;

pub const META: Meta = Meta { id: "C05", run, assumptions: &["signatures have at most two required and two optional parameters plus a variadic one (three and two in the thorough tier); at most five (six) arguments"] };

/// (parameter list, expression listing all bound names)
fn signature(ch: &mut Ch, req: usize, opt: usize) -> (String, String) {
    let mut ps: Vec<String> = Vec::new();
    let mut ns: Vec<String> = Vec::new();
    let r = ch.pick(req + 1);
    for k in 0..r {
        match ch.pick(if k == 0 { 3 } else { 2 }) {
            0 => { ps.push(format!("a{}", k)); ns.push(format!("a{}", k)); }
            1 => { ps.push(format!("(p{}, q{})", k, k)); ns.push(format!("p{}, q{}", k, k)); }
            _ => { ps.push(format!("(_, *w{})", k)); ns.push(format!("w{}", k)); }
        }
    }
    let o = ch.pick(opt + 1);
    for k in 0..o {
        match ch.pick(3) { 0 => ps.push(format!("b{}?", k)), 1 => ps.push(format!("b{} = t('{}')", k, k)), _ => ps.push(format!("b{} = [z, {}]", k, k)) }
        ns.push(format!("b{}", k));
    }
    if ch.flag() { ps.push("*v".into()); ns.push("v".into()); }
    (ps.join(", "), ns.join(", "))
}

/// All groupings of `args` into plain and unrolled arguments
fn group(ch: &mut Ch, args: &[String]) -> String {
    let mut out: Vec<String> = Vec::new();
    let mut open: Vec<String> = Vec::new();
    let flush = |open: &mut Vec<String>, out: &mut Vec<String>, k: usize| if !open.is_empty() {
        let l = open.join(", ");
        out.push(match k { 0 => format!("...[{}]", l), 1 => format!("...({}{})", l, if open.len() == 1 { "," } else { "" }), _ => format!("...id([{}])", l) });
        open.clear();
    };
    let kind = if args.is_empty() { 0 } else { ch.pick(3) };
    for a in args {
        if kind == 0 { out.push(a.clone()); continue; }
        match ch.pick(if open.is_empty() { 2 } else { 3 }) {
            0 => { flush(&mut open, &mut out, kind - 1); out.push(a.clone()); }
            1 => { flush(&mut open, &mut out, kind - 1); open.push(a.clone()); }
            _ => open.push(a.clone()),
        }
    }
    if kind > 0 { flush(&mut open, &mut out, kind - 1); }
    match if kind < 2 { ch.pick(3) } else { 0 } { 1 => out.push("...[]".into()), 2 => out.insert(0, "...''".into()), _ => () }
    out.join(", ")
}

fn call(ch: &mut Ch, args: &[String]) -> String {
    let n = args.len();
    match ch.pick(5) {
        0 => format!("f({})", group(ch, args)),
        // split into two applications
        1 if n > 0 => { let k = ch.pick(n + 1); let a = group(ch, &args[..k]); format!("f({})({})", a, args[k..].join(", ")) }
        2 if n > 0 => { let k = 1 + ch.pick(n); let a = group(ch, &args[k..]); format!("(args[0] is any . fn(x) -> f)({})({})", args[..k].join(", "), a).replace("(args[0] is any . fn(x) -> f)", "f") }
        3 if n == 1 => if ch.flag() { format!("{} . f", args[0]) } else { format!("f {}", if ch.flag() { "'ab'" } else { "nil" }) },
        4 if n >= 2 => {
            let k = 1 + ch.pick(n - 1);
            let a = args[k..].join(", ");
            match ch.pick(4) { 0 => format!("[f({})] . map(fn(g) -> [g({}), g({})])", args[..k].join(", "), a, a), 1 if k == n - 1 => format!("{} . f({})", a, args[..k].join(", ")), 2 if k == 1 => format!("({} . f)({})", args[0], a), 3 if n == 3 && k == 1 => format!("f({})({})({})", args[0], args[1], args[2]), _ => { ch.kill(); String::new() } }
        }
        _ => { ch.kill(); String::new() }
    }
}

const FORMS: &[&str] = &[
    "fn f($p) -> [$n, 'e']",
    "fn f($p) { let loc = 5; return [$n, loc] }",
    "let f = fn($p) -> [$n, 'e']",
    "fn mk() { let z = 7; fn f($p) { z += 1; [$n, z] } ; f }\nlet f = mk()",
    "struct S(s) { fn f($p) -> [$n] }\nlet f = S->f",
    "struct S(s) { fn f(self$c$p) -> [s, $n] }\nlet inst = S(9), f = inst->f",
    "module M {\n fn f($p) -> [$n]\n fn g() -> f\n}\nlet f = M->g()",
    "fn dec(g) -> g\n@dec fn f($p) -> [$n]",
];

fn run(cx: &mut Cx) {
    let pre = "let z = 1\nfn t(x) { z += 1; print('t', x); (x, z) }\nfn id(x) -> x\n";
    let (req, opt, maxn) = if cx.thorough() { (3, 2, 5) } else { (2, 2, 4) };
    let def = |form: &str, p: &str, n: &str| form.replace("$c", if p.is_empty() { "" } else { ", " }).replace("$p", p).replace("[s, $n]", &if n.is_empty() { "[s]".to_string() } else { format!("[s, {}]", n) }).replace("[$n, ", &if n.is_empty() { "[".to_string() } else { format!("[{}, ", n) }).replace("$n", n);
    let args: Vec<String> = (1..=6).map(|k| format!("({}, {})", k, 10 * k)).collect();
    cx.explore("signatures, argument lists and calling styles", |ch| {
        let (p, n) = signature(ch, req, opt);
        let k = ch.pick(maxn + 1);
        let c = call(ch, &args[..k]);
        if ch.dead() { return None; }
        let d = def(FORMS[0], &p, &n);
        Some(format!("{}{}\nlet r = {}\nprint(r, z)\n", pre, d, c))
    }, |cx, s| conform_src(cx, s, false, "argument binding"));
    cx.explore("kinds of functions", |ch| {
        let (p, n) = signature(ch, 2, if req > 2 { 2 } else { 1 });
        let form = *ch.of(FORMS);
        let k = ch.pick(4);
        let c = call(ch, &args[..k]);
        if ch.dead() { return None; }
        let d = def(form, &p, &n);
        // twice: default values are evaluated afresh, partial functions are reusable
        Some(format!("{}{}\nprint({}, z)\nprint({}, z)\n", pre, d, c, c))
    }, |cx, s| conform_src(cx, s, false, "argument binding"));
    cx.explore("partial functions are independent values", |ch| {
        let (p, n) = signature(ch, 3, 1);
        let form = *ch.of(&FORMS[..6]);
        let d = def(form, &p, &n);
        let a = ch.pick(3);
        let (b, c) = (ch.pick(4), ch.pick(4));
        let l = |k: usize, o: usize| args.iter().skip(o).take(k).cloned().collect::<Vec<_>>().join(", ");
        Some(format!("{}{}\nlet g = f({})\nlet h = if g is function then g({}) else 0, k = if g is function then g({}) else 1\nprint(repr(g), repr(h), repr(k))\nprint(if h is function then h({}) else 2, if k is function then k({}) else 3, if h is function then h({}) else 4, z)\n", pre, d, l(a, 0), l(b, 1), l(c, 2), l(2, 3), l(3, 0), l(1, 5)))
    }, |cx, s| conform_src(cx, s, false, "partial application"));
    // argument values that are not iterable, too short or too long for a pattern parameter
    cx.explore("pattern parameters of wrong shape", |ch| {
        let p = *ch.of(&["(p, q)", "(p, *q)", "(p, (q, r))", "(*p, q)", "(_, q), *v", "(p, _), b = 5"]);
        let n = *ch.of(&["1", "(1,)", "(1, 2)", "(1, 2, 3)", "[1, [2, 3]]", "'ab'", "''", "nil", "[]", "(1, (2, 3))"]);
        let st = *ch.of(&["f($)", "$ . f", "f(...[$])", "[$] . map(f)", "f($, 1)"]);
        Some(format!("fn f({}) -> 'ok'\nprint('a')\nprint({})\nprint('b')\n", p, st.replace('$', n)))
    }, |cx, s| conform_src(cx, s, false, "pattern parameters"));
    // structs are called with exactly their fields
    cx.explore("calling constructors and non-functions", |ch| {
        let f = *ch.of(&["S", "T", "E", "1", "nil", "'s'", "[1]", "[[5]]", "true", "2i", "S(1)", "{1}", "print", "(->a)", "(+)", "(+ 1)", "(1 -)", "(not)", "map", "map(print)", "len", "list", "M", "dict()", "range(3)", "fn() -> 3", "fn(x) -> x", "(fn(x, y) -> x)(1)"]);
        let a = *ch.of(&["()", "(1)", "(1, 2)", "(1, 2, 3)", "(...[1, 2])", "(1, ...[])", "(...[])", "([1], [2])", "([0])", "()()", "(1)(2)"]);
        Some(format!("struct S(a)\nstruct T(a, b)\nstruct E()\nmodule M {{ }}\nprint('s')\nlet f = {}\nlet r = f{}\nprint(repr(r))\n", f, a))
    }, |cx, s| { if !s.contains("struct E()") { return; } let s = s.replace("struct E()\n", "").replace("= E\n", "= S\n"); conform_src(cx, s, false, "calling values") });
    // native functions with fixed arity obey the same rules when partially applied
    const NAT: &[(&str, &[&str])] = &[("push", &["5", "[1]"]), ("map", &["abs", "[1, -2]"]), ("reduce", &["(*)", "[3, 4]"]), ("insert", &["1", "'x'", "[1, 2]"]), ("split", &["','", "'a,b'"]), ("replace", &["'a'", "'b'", "'aa'"]), ("join", &["'-'", "[1, 2]"]), ("find", &["(== 2)", "[1, 2]"]), ("index_of", &["2", "[1, 2]"]), ("any", &["(> 1)", "[1, 2]"]),
        ("default", &["3", "{1: 2}"]), ("group_by", &["2", "[1, 2, 3]"]), ("permutations", &["1", "[1, 2]"]), ("(+)", &["1", "2"]), ("(**)", &["2", "3"]), ("(and_)", &["1", "2"]), ("flat_map", &["str", "[1, 2]"]), ("remove", &["1", "[1, 2]"]), ("sort_by", &["abs", "[-3, 2]"]), ("merge", &["[1]", "[2]"]), ("peek", &["[4]"]), ("len", &["'abc'"]), ("(in)", &["1", "[1]"]), ("(is)", &["1", "int"]), ("union", &["{1}", "{2}"]), ("count_ones", &["7"])];
    cx.explore("native functions", |ch| {
        let (f, a) = *ch.of(NAT);
        if f == "(and_)" || f == "merge" { return None; }
        let mut xs: Vec<String> = a.iter().map(|s| s.to_string()).collect();
        let extra = ch.pick(3);
        for _ in 0..extra { xs.push("9".into()); }
        let drop = ch.pick(a.len() + 1);
        if drop > 0 { xs.truncate(a.len() - drop); if extra > 0 { return None; } }
        let c = call(ch, &xs);
        if ch.dead() { return None; }
        Some(format!("fn id(x) -> x\nlet f = {}\nprint(repr({}))\n", f, c))
    }, |cx, s| conform_src(cx, s, false, "native function"));
    // operators are functions, which may be given any of their operands first
    const OPS: &[&str] = &["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "is", "is not", "in", "not in", "not", "!"];
    cx.explore("operators as functions", |ch| {
        let op = *ch.of::<&str>(OPS);
        let (a, b) = *ch.of(&[("7", "2"), ("2", "7"), ("[7, 1]", "7"), ("7", "[7, 1]"), ("3", "int"), ("'a'", "'abc'"), ("'ab'", "2"), ("{1}", "{2}"), ("(7, 4)", "2"), ("3", "(7, 4)"), ("nil", "1"), ("true", "false"), ("int", "3")]);
        let form = ch.pick(6);
        // a minus with one operand is a negation
        if form == 2 && ["-", "not", "!"].contains(&op) { return None; }
        let f = match form { 0 => format!("({})", op), 1 => format!("({} {})", op, a), 2 => format!("({} {})", a, op), 3 => format!("({} {})", op, b), 4 => format!("(({})({}))", op, a), _ => format!("({})", op) };
        let c = match ch.pick(8) { 0 => format!("{}({})", f, b), 1 => format!("{} . {}", b, f), 2 => format!("{}({}, {})", f, a, b), 3 => format!("{} . {}({})", b, f, a), 4 => format!("[{}, {}] . map{}", a, b, f), 5 => format!("{}(...[{}])", f, b), 6 => format!("({} . str)({})", f, b), _ => format!("[{}, {}] . reduce{}", a, b, f) };
        let src = match ch.pick(3) { 0 => format!("let r = {}\nprint(repr(r))\n", c), 1 => format!("fn id(x) -> x\nlet a = id({}), b = id({})\nlet r = {}\nprint(repr(r), typeof(r) == typeof({}))\n", a, b, c.replace(a, "a").replace(b, "b"), a), _ => format!("let f = {}\nprint(repr(f))\nprint(repr(f({})))\nprint(repr({}))\n", f, b, c) };
        Some(src)
    }, |cx, s| { if s.starts_with("fn id") { conform_src(cx, s.clone(), true, "operator function"); } conform_src(cx, s, false, "operator function"); });
}
