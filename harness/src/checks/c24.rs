//! C24: sorting, extremes, grouping, heaps and combinatorics. Expected arrangements are computed here from ranks (where ties
//! leave the arrangement open, only what is specified is compared) or by the reference evaluator.
use super::*;

pub const META: Meta = Meta { id: "C24", run, assumptions: &["lists of up to 5 elements over rich alphabets, all 0-1 sequences of up to 9 (12 in the thorough tier) elements, structured lists of up to 300 elements", "the arrangement of elements which tie, and of values of different types, is not specified"] };

/// Compare a program with an exact output
fn exact(cx: &mut Cx, src: String, out: String, note: &str) {
    if cx.opt_compare { return c14::compare(cx, src, note); }
    let i = Input::Run { src, opt: false, stdin: String::new() };
    let o = match cx.exec(&i) { Some(o) => o, None => return };
    if let Input::Run { src, .. } = &i { cx.fresh(src.as_bytes()); }
    cx.transitions += 1;
    cx.validated += 1;
    if !o.ok() || o.out != out { cx.fail(&i, note, format!("stdout: {}", out), &o); } else if let Input::Run { src, .. } = &i { cx.sample(format!("{} => {}", src, out)); }
}

fn ints(v: &[i64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")) }

/// Values in ascending order
const ALPHABETS: &[&[&str]] = &[
    &["-1", "0", "2", "10"], &["-4611686018427387904", "-1", "0", "4611686018427387903"], &["''", "'B'", "'a'", "'ab'", "'b'", "'é'", "'☃'"], &["(0, 9)", "(1, 0)", "(1, 3)", "(2, 0)"], &["[]", "[0]", "[0, 1]", "[1]"],
    &["rational(-3, 2)", "rational(1, 3)", "rational(1, 2)", "rational(7, 2)"], &["false", "true"], &["('a', [1])", "('a', [1, 0])", "('a', [2])", "('b', [])"], &["'longer text, first'", "'longer text, second'", "'longer text, third'"],
];

const DRAIN: &str = "fn drain(h) {\n let r = []\n while h { r . push(h . pop) }\n return r\n}\n";

fn sorting(cx: &mut Cx) {
    let n = cx.tier.pick(5, 6);
    cx.explore("sort, min, max and heaps of lists", |ch| {
        let a = *ch.of(ALPHABETS);
        let k = ch.pick(n + 1);
        let v: Vec<usize> = (0..k).map(|_| ch.pick(a.len())).collect();
        Some((a, v, ch.pick(4)))
    }, |cx, (a, v, form)| {
        let mut w = v.clone();
        w.sort();
        let list = |v: &[usize]| v.iter().map(|x| a[*x]).collect::<Vec<_>>().join(", ");
        let l = match form { 0 => format!("[{}]", list(&v)), 1 => format!("vector([{}])", list(&v)), 2 => format!("[{}] . map(fn(x) -> x)", list(&v)), _ => format!("[0, {}][1:]", list(&v)) };
        let r = |v: &[usize]| format!("[{}]", list(v));
        let back: Vec<usize> = w.iter().rev().copied().collect();
        let mut src = format!("{}let l = {}\nlet was = repr(l)\nlet s = sort(l)\nprint(s == {}, s is list, l . sort == s, sort(s) == s, s . reverse == {}, sort(l . list . reverse) == s)\nprint(drain(heap(l)) == s)\nlet h = heap([])\nfor x in l {{ h . push(x) }}\nprint(h . len, drain(h) == s, bool(h), repr(l) == was)\nprint(heap(l) . list . sort == s, sort(heap(l)) == s, heap(l) == heap(s), {{...l}} . list . sort == {})\n", DRAIN, l, r(&w), r(&back), r(&{ let mut u = w.clone(); u.dedup(); u }));
        let mut out = format!("true true true true true true\ntrue\n{} true false true\ntrue true true true\n", v.len());
        if v.is_empty() { src += "print(min(l))\n"; } else {
            let (lo, hi) = (a[w[0]], a[w[w.len() - 1]]);
            src += &format!("print(min(l) == {}, max(l) == {}, (heap(l) . pop) == {}, (heap(l) . peek) == {})\n", lo, hi, lo, lo);
            out += "true true true true\n";
            if v.len() > 1 { src += &format!("print(min(...l) == {}, max(...l) == {}, sort(...l) == s)\n", lo, hi); out += "true true true\n"; }
        }
        if v.is_empty() {
            let i = Input::Run { src, opt: false, stdin: String::new() };
            if let Some(o) = cx.exec(&i) { cx.transitions += 1; cx.validated += 1; if o.end != End::Error || o.out != out || !o.first().starts_with("ValueError: ") { cx.fail(&i, "sort", format!("stdout: {} and a ValueError", out), &o); } }
        } else { exact(cx, src, out, "sort"); }
    });
    // a sorting method is right on all inputs when it is right on all sequences of 0 and 1 (for methods which only compare and exchange)
    let n = cx.tier.pick(9, 12);
    cx.explore("all sequences of 0 and 1", |ch| {
        let k = 5 + ch.pick(n - 4);
        Some((0..k).map(|_| ch.pick(2) as i64).collect::<Vec<_>>())
    }, |cx, v| {
        let mut w = v.clone();
        w.sort();
        let src = format!("{}let l = {}\nprint(sort(l))\nprint(drain(heap(l)))\nlet h = heap([])\nfor x in l {{ h . push(x) }}\nprint(drain(h))\nprint(sort_by(fn(x) -> [x], l))\nprint(sort_by(fn(x, y) -> x - y, l))\nprint(sort_by(fn(x, y) -> y - x, l) . reverse)\n", DRAIN, ints(&v));
        exact(cx, src, format!("{}\n", ints(&w)).repeat(6), "sort of 0 and 1");
    });
    cx.explore("longer lists", |ch| {
        let n = *ch.of(&[15i64, 20, 21, 22, 32, 33, 50, 64, 65, 100, 300]);
        let p = ch.pick(9);
        Some((n, p))
    }, |cx, (n, p)| {
        let v: Vec<i64> = (0..n).map(|i| match p { 0 => i, 1 => n - i, 2 => i.min(n - i), 3 => 7, 4 => i % 5, 5 => (i * 37 + 11) % 101 - 50, 6 => if i == n - 1 { -1 } else { i }, 7 => i ^ 21, _ => (i * i * 7919) % 10007 }).collect();
        let mut w = v.clone();
        w.sort();
        let src = format!("{}let l = {}\nprint(sort(l))\nprint(drain(heap(l)))\nlet h = heap([])\nfor x in l {{ h . push(x) }}\nprint(drain(h))\nprint(sort_by(fn(x) -> x, l))\nprint(sort_by(fn(x, y) -> x - y, l))\nprint(sort_by(fn(x) -> -x, l) . reverse)\nprint(l . map(str) . sort_by(int) . map(int))\nprint(l . map(fn(x) -> (x, 'x')) . sort . map([0]))\nprint(l . map(fn(x) -> x / 4611686018427387903) . len)\nprint([min(l), max(l), min_by(fn(x) -> -x, l), max_by(fn(x, y) -> y - x, l), sum(l), sum(sort(l))])\n", DRAIN, ints(&v));
        let (lo, hi, sum) = (w[0], w[w.len() - 1], w.iter().sum::<i64>());
        exact(cx, src, format!("{}{}\n{}\n", format!("{}\n", ints(&w)).repeat(8), n, ints(&[lo, hi, hi, lo, sum, sum])), "longer list");
    });
}

/// Functions of keys and comparators, where keys tie
fn keys(cx: &mut Cx) {
    let n = cx.tier.pick(5, 6);
    const VALUES: &[&[&str]] = &[&["-1", "0", "5"], &["-4611686018427387904", "0", "4611686018427387903"], &["''", "'a'", "'é'"], &["(0, 'z')", "(1, 'a')", "(1, 'b')"], &["[]", "[nil]", "[nil, nil]"], &["rational(1, 3)", "rational(1, 2)", "rational(2, 3)"]];
    cx.explore("keys and comparators with ties", |ch| {
        let k = 1 + ch.pick(n);
        let r: Vec<usize> = (0..k).map(|_| ch.pick(3)).collect();
        let v = *ch.of(VALUES);
        let f = *ch.of(&["fn(i) -> K[i]", "fn(i, j = 3) -> K[i]", "fn(i, *r) -> K[i]", "memoize(fn(i) -> K[i])", "key", "M->key", "$K", "cmp", "fn(i, j, k?) -> cmp(i, j)", "M->cmp", "memoize(fn(i, j) -> cmp(i, j))", "fn(i, j) -> if cmp(i, j) < 0 then -4611686018427387904 elif cmp(i, j) > 0 then 4611686018427387903 else 0", "sub3(0)"]);
        let form = *ch.of(&["$o($f, $i)", "$i . $o($f)", "$o($f)($i)"]);
        Some((r, v, f, form))
    }, |cx, (r, v, f, form)| {
        let n = r.len();
        let mut src = format!("let K = [{}], R = {}\nfn key(i) -> K[i]\nfn cmp(i, j) {{\n if K[i] < K[j] {{ return -1 }}\n if K[i] > K[j] {{ return 1 }}\n return 0\n}}\nfn sub3(z, i, j) -> cmp(i, j)\nmodule M {{\n fn key(i) -> K[i]\n fn cmp(i, j) -> cmp(i, j)\n}}\n", r.iter().map(|x| v[*x]).collect::<Vec<_>>().join(", "), ints(&r.iter().map(|x| *x as i64).collect::<Vec<_>>()));
        let f = if f == "$K" { "fn(i) -> [K[i], 0]" } else { f };
        // a function of a module which has the same name calls itself
        let f = if f == "M->cmp" { "M->key" } else { f };
        src = src.replace(" fn cmp(i, j) -> cmp(i, j)\n", "");
        let mut w = r.clone();
        w.sort();
        let mut out = String::new();
        for i in ["range(len(K))", "[...range(len(K))] . reverse", "vector(range(len(K)))", "{...range(len(K))}"] {
            for o in ["sort_by", "min_by", "max_by"] {
                let e = form.replace("$o", o).replace("$f", f).replace("$i", &if form.starts_with('$') { format!("({})", i) } else { i.into() });
                src += &if o == "sort_by" { format!("let s = {}\nprint(s . map(fn(i) -> R[i]), sort(s) == [...range(len(K))], s is list)\n", e).replacen("let s", if out.is_empty() { "let s" } else { "s" }, 1) } else { format!("print(R[{}])\n", e) };
                out += &match o { "sort_by" => format!("{} true true\n", ints(&w.iter().map(|x| *x as i64).collect::<Vec<_>>())), "min_by" => format!("{}\n", w[0]), _ => format!("{}\n", w[n - 1]) };
            }
        }
        exact(cx, src, out, "keys");
    });
    // whatever a comparator returns, nothing is lost
    cx.explore("inconsistent comparators", |ch| {
        let n = *ch.of(&[0, 1, 2, 3, 5, 19, 20, 21, 25, 33, 50, 64, 100, 257]);
        let f = *ch.of(&["fn(a, b) -> -1", "fn(a, b) -> 1", "fn(a, b) -> 0", "fn(a, b) -> true", "fn(a, b) -> a > b", "fn(a, b) -> if (a + b) % 3 == 0 then 1 else -1", "fn(a, b) { k = (k * 7 + 3) % 11\n return k - 5 }", "fn(a) -> -k", "fn(a) { k = (k * 31 + 3) % 101\n return k }", "fn(a) { k = (k * 31 + 3) % 101\n return if k % 2 then k else str(k) }", "fn(a) -> if a % 2 == 0 then a else [a]", "fn(a, b) -> a * b % 5 - 2"]);
        Some((n, f))
    }, |cx, (n, f)| {
        let src = format!("let k = 1\nlet l = range({}) . map(fn(i) -> (i * 37 + 11) % 101)\nlet s = l . sort_by({})\nprint(len(s), sort(s) == sort(l), s is list, l == range({}) . map(fn(i) -> (i * 37 + 11) % 101))\nlet m = l . map(fn(i) -> if i % 3 == 0 then str(i) elif i % 3 == 1 then i else (i, nil))\nprint(counter(m) == counter(sort(m)), len(sort(m)), len(heap(m)), counter(list(heap(m))) == counter(m))\nif l {{ print(min_by({}, l) in l, max_by({}, l) in l, min(m) in m, max(m) in m) }}\n", n, f, n, f, f);
        let out = format!("{} true true true\ntrue {} {} true\n{}", n, n, n, if n > 0 { "true true true true\n" } else { "" });
        exact(cx, src, out, "inconsistent comparator");
    });
    cx.explore("keys and comparators which fail", |ch| {
        let l = *ch.of(&["[]", "[1]", "[2, 1]", "[3, 1, 2]", "(1, 2, 2, 1)", "{3, 4}", "'ba'", "range(5)", "5", "nil", "heap([2, 1])"]);
        let f = *ch.of(&["fn(x, y) -> nil", "fn(x, y) -> 'a'", "fn(x, y) -> 1i", "fn(x, y) -> [1]", "fn(x, y) -> rational(1, 2)", "fn(x, y) -> x / 0", "fn(x) -> x / 0", "fn(x) { if x == 2 { return 1 / 0 }\n return x }", "fn() -> 1", "fn(x, y, z) -> 1", "fn(*x) -> 1", "fn(x?) -> 1", "5", "nil", "'a'", "S", "print", "min", "(-)", "(+)", "(<)", "len", "str", "[0]", "[1:]", "(->v)", "{1: 2}", "typeof", "fn(x, y) -> exit", "sum", "sort", "list", "gcd", "max", "set", "enumerate", "range"]);
        let o = *ch.of(&["sort_by", "min_by", "max_by", "group_by"]);
        let w = *ch.of(&["let r = $\nprint(repr(r))\n", "fn g() {\n print('g')\n return $\n}\nprint(repr([0, g()]))\n"]);
        Some(format!("struct S(v)\n{}print('end')\n", w.replace('$', &format!("{}({}, {})", o, f, l))))
    }, |cx, s| conform_src(cx, s, false, "failing key or comparator"));
}

fn grouping(cx: &mut Cx) {
    let n = cx.tier.pick(5, 6);
    cx.explore("group_by of a function", |ch| {
        let k = ch.pick(n + 1);
        let l: Vec<&str> = (0..k).map(|_| *ch.of(&["1", "2", "'1'", "true", "nil", "[1]"])).collect();
        let f = *ch.of(&["fn(x) -> x", "str", "fn(x) -> (x, 1)", "fn(x) -> [x]", "typeof", "fn(x) -> nil", "fn(x) { c += 1\n return c % 2 }", "bool"]);
        let i = *ch.of(&["[$]", "(0, $)", "[$] . reverse"]);
        Some(format!("let c = 0\nlet l = {}\nlet g = group_by({}, l)\nprint(repr(g), len(g), c)\nprint(g . values . concat . counter == counter(l))\nfor k, v in g {{ print(repr(k), v is vector, len(v)) }}\ng[7] = 1\nprint(repr(l), 7 in g)\n", i.replace('$', &l.join(", ")).replace("(0, )", "vector([])"), f))
    }, |cx, s| conform_src(cx, s, false, "groups"));
    let m = cx.tier.pick(9, 14);
    cx.explore("group_by of a size", |ch| {
        let n = ch.pick(m);
        let k = *ch.of(&["-4611686018427387904", "-1", "0", "1", "2", "3", "4", "5", "6", "7", "8", "100", "4611686018427387903", "true", "false", "nil", "rational(2, 1)", "2i"]);
        let i = *ch.of(&["range($)", "[...range($)]", "vector(range($))", "{...range($)}", "'0123456789abcdef'[:$]", "enumerate(range($))", "range($) . map(fn(x) -> (x, [x])) . dict", "heap(range($))"]);
        Some(format!("let l = {}\nlet g = group_by({}, l)\nprint(repr(g))\nprint(g is list, len(g), g . all(fn(v) -> v is vector), g . concat == list(l), g . map(len))\ng . push(1)\nprint(len(l))\n", i.replace('$', &n.to_string()), k))
    }, |cx, s| conform_src(cx, s, false, "groups of a size"));
}

/// All arrangements of k of n positions, in lexicographic order of positions
fn arrangements(n: usize, k: usize, ordered: bool) -> Vec<Vec<usize>> {
    let mut r: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k { r = r.into_iter().flat_map(|p| (0..n).filter(|x| if ordered { !p.contains(x) } else { p.last().map_or(true, |l| x > l) }).map(|x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
    r
}

fn combinatorics(cx: &mut Cx) {
    let m = cx.tier.pick(6, 8);
    cx.explore("permutations and combinations", |ch| {
        let ordered = ch.flag();
        let n = ch.pick(m + 1);
        let k = ch.pick(m + 2);
        // equal elements are told apart by their position
        let e = *ch.of(&[&["0", "1", "2", "3", "4", "5", "6", "7"], &["'a'", "'b'", "'a'", "'é'", "'a'", "'b'", "''", "'z'"], &["1", "1", "1", "1", "1", "1", "1", "1"], &["nil", "[1]", "(1, 2)", "true", "{3}", "[1]", "'x'", "5"]]);
        Some((ordered, n, k, e, ch.pick(4), ch.pick(3)))
    }, |cx, (ordered, n, k, e, form, call)| {
        let i = match form { 0 => format!("[{}]", e[..n].join(", ")), 1 => format!("vector([{}])", e[..n].join(", ")), 2 => { if e[0] != "0" { return; } format!("range({})", n) } _ => { if e[0] != "0" { return; } format!("'{}'", &"01234567"[..n]) } };
        let all = arrangements(n, k, ordered);
        if all.len() > 2600 { return; }
        let f = if ordered { "permutations" } else { "combinations" };
        let c = match call { 0 => format!("{}({}, {})", f, k, i), 1 => format!("{} . {}({})", if form == 2 { format!("({})", i) } else { i.clone() }, f, k), _ => format!("{}({})({})", f, k, i) };
        let want = format!("[{}]", all.iter().map(|p| format!("vector([{}])", p.iter().map(|x| if form == 3 { format!("'{}'", x) } else { e[*x].to_string() }).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "));
        let src = format!("let r = {}\nprint(len(r), r is list, r . all(fn(x) -> x is vector and len(x) == {}))\nprint(r == {}, {} == {})\n", c, k, want, i, i);
        exact(cx, src, format!("{} true true\ntrue true\n", all.len()), f);
    });
    cx.explore("sizes of permutations and combinations", |ch| {
        let f = *ch.of(&["permutations", "combinations"]);
        let k = *ch.of(&["-1", "-4611686018427387904", "4611686018427387903", "1000000000000", "100", "7", "0", "true", "nil", "'a'", "rational(1, 1)", "1i", "[1]"]);
        let i = *ch.of(&["[]", "[1]", "[1, 2, 3]", "''", "{}", "{1, 2}", "{1: 2, 3: 4}", "enumerate('ab')", "range(0)", "heap([1])", "nil", "5", "print", "heap([2, 1])", "'hé'"]);
        Some(format!("let r = {}({}, {})\nprint(repr(r))\n", f, k, i))
    }, |cx, s| conform_src(cx, s, false, "sizes"));
}

fn heaps(cx: &mut Cx) {
    let d = cx.tier.pick(6, 8);
    const E: &[&[&str]] = &[&["1", "2", "0"], &["'b'", "'a'", "''"], &["(1, 'x')", "(1, 'a')", "(0, 'z')"]];
    cx.explore("histories of pushes and pops", |ch| {
        let e = ch.pick(E.len());
        let init: Vec<usize> = { let k = ch.pick(3); (0..k).map(|_| ch.pick(2)).collect() };
        let d = if e == 0 { d } else { d - 2 };
        Some((e, init, (0..d).map(|_| ch.pick(5)).collect::<Vec<_>>()))
    }, |cx, (e, init, ops)| {
        // the position of a value in ascending order is the reverse of its position above
        let mut vals = E[e].to_vec();
        vals.sort_by_key(|v| match *v { "1" | "'a'" | "(1, 'a')" => 1, "0" | "''" | "(0, 'z')" => 0, _ => 2 });
        let mut h: Vec<usize> = init.iter().map(|x| vals.iter().position(|v| *v == E[e][*x]).unwrap()).collect();
        h.sort();
        let mut src = format!("{}let h = heap([{}]), k = h\n", DRAIN, init.iter().map(|x| E[e][*x]).collect::<Vec<_>>().join(", "));
        let mut out = String::new();
        let mut err = false;
        for o in &ops {
            if *o < 3 {
                src += &format!("print((h . push({})) == k, len(k))\n", E[e][*o]);
                h.push(vals.iter().position(|v| *v == E[e][*o]).unwrap());
                h.sort();
                out += &format!("true {}\n", h.len());
            } else {
                let f = if *o == 3 { "pop" } else { "peek" };
                src += &format!("let r = k . {}\nprint({}, len(h))\n", f, vals.iter().map(|v| format!("r == {}", v)).collect::<Vec<_>>().join(", ")).replacen("let r", if src.contains("let r =") && src.matches("let r =").count() > 1 { "r" } else { "let r" }, 1);
                if h.is_empty() { err = true; break; }
                let t = h[0];
                if *o == 3 { h.remove(0); }
                out += &format!("{} {}\n", (0..3).map(|i| (i == t).to_string()).collect::<Vec<_>>().join(" "), h.len());
            }
        }
        if !err { src += &format!("print(drain(copy(h)) == [{}], len(k), bool(h), heap([...h]) == h)\n", h.iter().map(|x| vals[*x]).collect::<Vec<_>>().join(", ")); out += &format!("true {} {} true\n", h.len(), !h.is_empty()); }
        if !err { exact(cx, src, out, "heap history"); } else {
            let i = Input::Run { src, opt: false, stdin: String::new() };
            if let Some(o) = cx.exec(&i) { cx.transitions += 1; cx.validated += 1; if o.end != End::Error || o.out != out || !o.first().starts_with("ValueError: ") { cx.fail(&i, "heap history", format!("stdout: {} and a ValueError", out), &o); } }
        }
    });
}

fn run(cx: &mut Cx) {
    sorting(cx);
    keys(cx);
    grouping(cx);
    combinatorics(cx);
    heaps(cx);
}
