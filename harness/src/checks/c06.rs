//! C06: destructuring. Every pattern up to a size against every right-hand value up to a size, in every position.
use super::*;
use crate::engine::Ch;

pub const META: Meta = Meta { id: "C06", run, assumptions: &["patterns have at most three elements per level and nest to depth two (three in the thorough tier); values have at most four elements per level"] };

/// A pattern; names are appended to `ns`. `refs`: array and field targets are allowed
fn pat(ch: &mut Ch, depth: usize, max: usize, refs: bool, ns: &mut Vec<String>) -> String {
    let n = 1 + ch.pick(max);
    let mut starred = false;
    let mut out = Vec::new();
    for _ in 0..n {
        let kinds = 2 + if starred { 0 } else { 2 } + (depth > 0) as usize + if refs { 2 } else { 0 };
        let mut k = ch.pick(kinds);
        if starred && k >= 2 { k += 2; }
        if k >= 4 && depth == 0 { k += 1; }
        let name = format!("x{}", ns.len());
        out.push(match k {
            0 => { ns.push(name.clone()); name }
            1 => "_".into(),
            2 => { starred = true; ns.push(name.clone()); format!("*{}", name) }
            3 => { starred = true; "*_".into() }
            4 => format!("({})", pat(ch, depth - 1, if depth > 1 { max } else { 2 }, refs, ns)).replace("(x", "(x"),
            5 => format!("arr[{}]", ns.len() % 3),
            _ => ["obj->f", "obj->g"][ns.len() % 2].into(),
        });
    }
    let s = out.join(", ");
    // a parenthesised single target is only a pattern where no expression is possible
    if n == 1 && (refs || s.starts_with('(')) { ch.kill(); }
    s
}

fn value(ch: &mut Ch, max: usize, kinds: &[&str], depth: usize) -> String {
    let items: &[&str] = if depth > 1 { &["7", "[7, 8]", "(9,)", "'pq'", "[[1, 2], [3]]"] } else { &["7", "[7, 8]", "(9,)"] };
    let n = ch.pick(max + 1);
    let xs: Vec<String> = (0..n).map(|k| if depth == 0 { format!("{}", k + 1) } else { let j = *ch.of(items); if j == "7" { format!("{}", k + 1) } else { j.to_string() } }).collect();
    match *ch.of(kinds) { "list" => format!("[{}]", xs.join(", ")), "vector" => format!("vector([{}])", xs.join(", ")), "str" => format!("'{}'", &"aé漢d"[..[0, 1, 3, 6, 7][n]]), "set" => format!("set([{}])", xs.join(", ")), "range" => format!("range({})", n), "enum" => format!("enumerate([{}])", xs.join(", ")), _ => format!("dict([{}])", xs.iter().enumerate().map(|(k, x)| format!("({}, {})", k + 10, x)).collect::<Vec<_>>().join(", ")) }
}

fn show(ns: &[String]) -> String { if ns.is_empty() { "print('none')".into() } else { format!("print({})", ns.iter().map(|n| format!("repr({})", n)).collect::<Vec<_>>().join(", ")) } }

fn place(mode: usize, p: &str, ns: &[String], v: &str) -> Option<String> {
    let multi = p.contains(',');
    let decl = if ns.is_empty() { String::new() } else { format!("let {}\n", ns.join(", ")) };
    let bind = ns.iter().enumerate().map(|(k, n)| format!("{} = 'o{}'", n, k)).collect::<Vec<_>>().join("; ");
    let show = show(ns);
    // a declaration must declare a name, and a single starred name is not a pattern
    if ns.is_empty() && (mode < 5) && mode != 1 || p.starts_with('*') && !multi { return None; }
    Some(match mode {
        0 => format!("print('a')\nlet {} = {}\n{}\n", p, v, show),
        1 => format!("for {} in [{}, {}] {{ {} }}\nprint('z')\n", p, v, v, show),
        2 => format!("fn f(({}{}), w = 1) {{ {}; w }}\nprint(f({}))\n", p, "", show, v),
        3 => format!("fn f() {{ let pad = 1, {} = {}, pad2 = 2; {}; print(pad, pad2) }}\nf()\n", format!("v = {}; let {}", v, p), "v", show),
        4 => format!("let g\nfn f(k) {{ let pad = 3, {}\n g = fn() {{ {}; {} }}\n k }}\nf(2); g(); g()\n", p.replace("*", "").replace('(', "").replace(')', "").split(", ").filter(|x| x.starts_with('x')).map(|x| x.trim_matches(',').to_string()).collect::<Vec<_>>().join(", "), format!("{} = {}", p, v), show),
        5 => format!("struct S(f, g)\nlet arr = [0, 0, 0], obj = S(0, 0)\n{}{}\nlet r\nr = {} = {}\n{}\nprint(repr(r), arr, obj)\n", decl, bind, p, v, show),
        6 => format!("struct S(f, g)\nfn main() {{\n let arr = [0, 0, 0], obj = S(0, 0)\n {} {}\n let r = [1, {} = {}, 2]\n {}\n print(repr(r), arr, obj)\n}}\nmain()\n", decl, bind, if multi { format!("({})", p) } else { p.to_string() }, v, show),
        _ => return None,
    })
}

fn run(cx: &mut Cx) {
    let (d, m) = if cx.thorough() { (2, 3) } else { (1, 3) };
    let all = ["list", "vector", "str", "set", "range", "dict", "enum"];
    // declarations: trivial patterns are allowed
    cx.explore("let, for and parameter patterns on flat values", |ch| {
        let mut ns = Vec::new();
        let p = pat(ch, 0, 4, false, &mut ns);
        let v = value(ch, 4, &all, 0);
        place(ch.pick(4), &p, &ns, &v)
    }, |cx, s| conform_src(cx, s, false, "destructuring"));
    cx.explore("nested patterns", |ch| {
        let mut ns = Vec::new();
        let p = pat(ch, d, if d > 1 { 2 } else { m }, false, &mut ns);
        let v = value(ch, if d > 1 { 2 } else { 3 }, if d > 1 { &["list", "vector"] } else { &["list"] }, d);
        place(2 * ch.pick(2), &p, &ns, &v)
    }, |cx, s| conform_src(cx, s, false, "nested destructuring"));
    cx.explore("assignment patterns", |ch| {
        let mut ns = Vec::new();
        let p = pat(ch, 1, 2, true, &mut ns);
        let refs = p.contains("arr") || p.contains("obj");
        if ns.is_empty() && !refs || !p.contains(',') { return None; }
        let v = value(ch, 3, &["list", "str", "vector"], 1);
        place(4 + ch.pick(3), &p, &ns, &v).filter(|s| !(s.starts_with("let g") && (refs || ns.is_empty())))
    }, |cx, s| conform_src(cx, s, false, "assignment pattern"));
    // swaps and rotations over shared mutable sequences, evaluated right to left
    let t = ["a", "b", "l[0]", "l[1]", "l[2]", "l[a]", "o->f", "o->g", "o->g[0]", "_"];
    let three = cx.thorough();
    cx.explore("aliased targets and sources", |ch| {
        let n = 2 + ch.pick(2);
        if n == 3 && !three && ch.pick(2) == 0 { }
        let p: Vec<&str> = (0..n).map(|_| *ch.of(&t)).collect();
        let src = ["a", "b", "l[0]", "l[2]", "o->f", "7"];
        let r = match ch.pick(4) { 0 => "l".to_string(), 1 if n == 2 => "o->g".into(), 2 => (0..n).map(|_| *ch.of(&src)).collect::<Vec<_>>().join(", "), 3 => format!("[{}]", (0..n).map(|k| src[(k + 2) % 6]).collect::<Vec<_>>().join(", ")), _ => return None };
        if p.iter().all(|x| *x == "_") { return None; }
        let f = ch.pick(if n == 3 && !three { 1 } else { 3 });
        let body = format!("let a = 1, b = 2, l = [0, 1, 2], o = S(5, [6, 8])\nlet r = 0\nr = {} = {}\nprint(a, b, l, o, r)\n", p.join(", "), r);
        Some(match f { 0 => format!("struct S(f, g)\n{}", body), 1 => format!("struct S(f, g)\nfn m() {{\n{}}}\nm()\n", body), _ => format!("struct S(f, g)\nfn m() {{\nlet a = 1, b = 2, l = [0, 1, 2], o = S(5, [6, 8]), r\nlet h = fn() {{ r = {} = {} }}\nh(); print(a, b, l, o, r); h()\nprint(a, b, l, o, r)\n}}\nm()\n", p.join(", "), r) })
    }, |cx, s| conform_src(cx, s, false, "aliased assignment pattern"));
    cx.explore("values that are not iterable, and library iterables", |ch| {
        let p = *ch.of(&["x, y", "x, *y", "*x, y", "_, x", "x, (*y, _)", "x, (y, _)", "x,", "(x,)", "(x, *y)"]);
        let v = *ch.of(&["1", "nil", "true", "1.5i", "2i", "rational(1, 2)", "print", "fn(x) -> x", "S(1, 2)", "S", "{1: 2, 3: 4}", "{1, 2}", "range(2)", "range(5, 1, -2)", "enumerate('ab')", "heap([2])", "[1, 2] . zip([3, 4])", "'ab' . list", "{'a': 1} . keys", "(1, (2, 3))", "[1, 'ab']"]);
        let (n, p2) = (if p.contains('y') { "x, y" } else { "x" }, p);
        if v == "1.5i" { return None; }
        let m = ch.pick(3);
        if m > 0 && p.ends_with(",") || m > 0 && p == "(x,)" { return None; }
        Some(format!("struct S(f, g)\nlet {}\n{}\nprint('s');\n{}\nprint({})\n", n, if n == "x" { "x = 'o'" } else { "x = 'o'; y = 'o'" }, match m { 0 => format!("{} = {}", p2, v), 1 => format!("do {{ let {} = {}; print({}) }}", p2, v, n), _ => format!("for {} in [{}] {{ print({}) }}", p2, v, n) }, n))
    }, |cx, s| conform_src(cx, s, false, "destructured value"));
}
