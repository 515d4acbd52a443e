//! C12: iteration and the functional library: every operation over every kind of iterable, with callbacks that trace their calls.
use super::*;

pub const META: Meta = Meta { id: "C12", run, assumptions: &["iterables of up to 6 elements, pipelines of up to 3 stages (4 in the thorough tier)", "the order in which a heap is visited is not specified"] };

/// iterables in many forms
const IT: &[&str] = &["[]", "[3, 1, 2]", "[1, 'a', nil, 1, true]", "vector([])", "(2, 1)", "{}", "{2, 1, 'x'}", "dict([])", "{1: 'a', 2: 'b'}", "heap([])", "heap([7])", "''", "'hé☃y'", "'aab'", "range(4)", "range(5, 0, -2)", "range(1, 10, 3)", "range(0)", "range(3, 3)", "range(2, 5, -1)", "enumerate([])", "enumerate('ab')", "enumerate([5, [6]])", "[[1, 2], [3], []]", "['ab', (1, 2), {3}]", "[(1, 2), (3, 4)]", "[0, false, nil, '', []]", "enumerate(range(3, 0, -1))", "enumerate(enumerate('xy'))", "enumerate({4: 5})"];
const NOT: &[&str] = &["nil", "5", "true", "print", "fn(x) -> x", "1i", "S(1)"];

/// callbacks: `t` prints its argument
const F1: &[&str] = &["t", "fn(x) -> [x, x]", "str", "bool", "(->v)", "(== 1)", "(1 +)", "[0]", "fn() -> 1", "fn(x, y) -> x", "fn(x, y = 3) -> (x, y)", "fn(*x) -> x", "5", "'a'", "nil", "[1:]", "S", "len", "repr", "memoize(t)", "typeof", "boom"];
const F2: &[&str] = &["t2", "fn(x, y) -> y", "(+)", "min", "fn(x) -> x", "fn(*x) -> x", "fn(x, y, z) -> x", "max(1)", "5", "zip", "boom2", "fn(x, y = 1) -> [x, y]"];
const PRE: &str = "struct S(v)\nlet n = 0\nfn t(x) { print('t', repr(x))\n return x }\nfn t2(x, y) { print('t2', repr(x), repr(y))\n return [x, y] }\nfn boom(x) { n += 1\n print('b', repr(x))\n if n == 2 { return nil + 1 }\n return x }\nfn boom2(x, y) { n += 1\n print('b', repr(x), repr(y))\n if n == 2 { return nil + 1 }\n return y }\n";

fn run(cx: &mut Cx) {
    cx.explore("functions of one callback on every iterable", |ch| {
        let op = *ch.of(&["map", "filter", "flat_map", "any", "all", "find", "rfind", "index_of", "rindex_of", "group_by", "sort_by", "min_by", "max_by", "reduce"]);
        let i = if ch.flag() { *ch.of(IT) } else { *ch.of(NOT) };
        let f = if op == "reduce" { *ch.of(F2) } else { *ch.of(F1) };
        let form = *ch.of(&["$o($f, $i)", "$i . $o($f)", "$o($f)($i)"]);
        // the order and the number of the calls are not specified, nor is the outcome of inconsistent comparisons
        if op.ends_with("_by") && f == "fn(x, y) -> x" { return None; }
        if op == "sort_by" && (f == "t" || f == "boom" || f.contains("memoize")) { return None; }
        Some(format!("{}let r = {}\nprint(repr(r))\n", PRE, form.replace("$o", op).replace("$f", f).replace("$i", i)))
    }, |cx, s| conform_src(cx, s, false, "function of one callback"));
    cx.explore("functions of iterables", |ch| {
        let i = if ch.flag() { *ch.of(IT) } else { *ch.of(NOT) };
        let op = *ch.of(&["sum(i)", "min(i)", "max(i)", "len(i)", "reverse(i)", "concat(i)", "counter(i)", "zip(i)", "enumerate(i)", "list(i)", "vector(i)", "set(i)", "dict(i)", "heap(i) . len", "sort(i)", "i . reverse . list", "zip(i, i)", "zip(i, [8, 9])", "zip(range(2), i, 'xyz')", "zip(...i)", "print(...i)", "[...i]", "(...i, 1)", "{...i}", "list(...i)", "vector(...i)", "set(...i)", "sum(...i)", "min(...i)", "max(...i)", "i . map(repr)", "permutations(2, i)", "combinations(2, i)", "permutations(0, i)", "combinations(1, i)", "i . enumerate . list", "enumerate(i) . reverse", "enumerate(i) . len", "enumerate(i) . sort", "copy(i)", "i . reduce(t2)", "group_by(2, i)", "group_by(1, i)", "group_by(0, i)", "group_by(-1, i)", "group_by(-2, i)", "group_by(9, i)", "i . any(bool)", "join('-', i)", "i . list == [...i]", "i . set == {...i}", "i . len == i . list . len", "i . list . reverse == i . reverse . list", "bool(i)", "i . map(t) . len", "concat([i, i])", "flat_map(fn(x) -> i, i)", "i . zip([7, 7, 7]) . flat_map(list)", "i . list . sort . list == sort(i)", "i . typeof", "enumerate(i) . list == zip(range(len(i)), i) ", "[i, i] . concat . len"]);
        Some(format!("{}let i = {}\nlet r = {}\nprint(repr(r))\n", PRE, i, op))
    }, |cx, s| conform_src(cx, s, false, "function of an iterable"));
    cx.explore("loops over every iterable", |ch| {
        let i = if ch.flag() { *ch.of(IT) } else { *ch.of(NOT) };
        let b = *ch.of(&["for x in i { print(repr(x)) }", "for x in i { if x == 1 { break }\n print(x) } else { print('none') }", "for x in i { if x == 1 { continue }\n print(x) }", "for a, b in i { print(a, b) }", "for a, *b in i { print(a, b) }", "for (a, b), c in i { print(a, b, c) }", "for _, *_, b in i { print(b) }", "for x in i { for y in i { if x == y { continue }\n print(x, y) } }", "let fs = []\nfor x in i { fs . push(fn() -> x) }\nprint(fs . map(fn(f) -> f()))", "for x in i { x = 5\n print(x) }", "fn g() { for x in i { if x != 3 { return x } }\n return 'end' }\nprint(g())", "for j, x in enumerate(i) { print(j, x) }", "for x in i . reverse { print(x) }", "for j, (k, x) in enumerate(enumerate(i)) { print(j, k, x) }", "fn g(*a) { print(len(a), a) }\ng(...i, ...i)\ng(0, ...i)"]);
        Some(format!("{}let i = {}\n{}\nprint('end')\n", PRE, i, b))
    }, |cx, s| conform_src(cx, s, false, "loop"));
    cx.explore("membership and search", |ch| {
        let i = if ch.flag() { *ch.of(IT) } else { *ch.of(NOT) };
        let v = *ch.of(&["1", "2", "0", "5", "-1", "true", "false", "nil", "'a'", "'x'", "'aa'", "''", "'☃'", "1i", "rational(2, 1)", "rational(3, 2)", "[1]", "[]", "(0, 'a')", "(1, 2)", "[1, 2]", "{3}", "(2, 1)", "(1, [6])", "range(1)", "print", "(0, (0, 'x'))", "10", "4611686018427387903"]);
        let op = *ch.of(&["v in i", "v not in i", "v in i . list", "find(v, i)", "rfind(v, i)", "index_of(v, i)", "rindex_of(v, i)", "i . find(fn(x) -> x == v)", "i . rindex_of(fn(x) -> x == v)", "(in i)(v)", "(v in)(i)", "[v in i, v in [...i]]", "(v not in)(i)", "i . index_of(v) == i . list . index_of(v)"]);
        Some(format!("{}let i = {}, v = {}\nprint(repr({}))\n", PRE, i, v, op))
    }, |cx, s| conform_src(cx, s, false, "membership"));
    // ranges and enumerations denote lists
    let r: Vec<i64> = if cx.thorough() { (-7..=7).collect() } else { (-4..=4).collect() };
    cx.explore("ranges denote lists", |ch| {
        let big = ch.flag();
        let (a, b, c) = if big {
            let w = ["0", "1", "-1", "4611686018427387903", "-4611686018427387904", "4611686018427387902", "2305843009213693952", "7", "-4611686018427387903"];
            (ch.of::<&str>(&w).to_string(), ch.of::<&str>(&w).to_string(), ch.of::<&str>(&["4611686018427387903", "-4611686018427387904", "2305843009213693952", "-2305843009213693951", "1537228672809129301"]).to_string())
        } else { (ch.of(&r).to_string(), ch.of(&r).to_string(), ch.of(&r).to_string()) };
        let q = *ch.of(&["len(r), r . list, bool(r)", "r . reverse, [...r]", "r == range(a, b, c), repr(r), str(r)", "r . map(fn(x) -> x in r) . all(fn(x) -> x)", "[-9, -3, -2, -1, 0, 1, 2, 3, 6, 4611686018427387903, -4611686018427387904] . map(fn(x) -> x in r) ", "r . len == r . list . len, enumerate(r) . list, enumerate(r) . reverse", "r . list == r . reverse . reverse", "sort(r), r . set . len, r . filter(fn(x) -> x > 0)", "r[0], r[-1]", "r[:1]", "a in r, b in r, a + c in r, b - c in r, a - c in r", "enumerate(r) . len, (0, a) in enumerate(r), (1, a + c) in enumerate(r), (0, b) in enumerate(r)", "r . sum", "r . min, r . max", "(len(r), r) == (len(r), range(a, b, c))"]);
        Some(format!("let a = {}, b = {}, c = {}\nlet r = range(a, b, c)\nprint({})\n", a, b, c, q))
    }, |cx, s| conform_src(cx, s, false, "ranges"));
    cx.explore("equal ranges", |ch| {
        let w: Vec<i64> = (-2..=3).collect();
        let (a, b, c) = (*ch.of(&w), *ch.of(&w), *ch.of(&[1i64, 2, -1, 3, 0]));
        let (d, e, f) = (*ch.of(&w), *ch.of(&w), *ch.of(&[1i64, 2, -1, 3]));
        if c == 0 && (d, e, f) != (0, 1, 1) { return None; }
        Some(format!("let p = range({}, {}, {}), q = range({}, {}, {})\nprint(p == q, len({{p, q}}), p == p . list, enumerate(p) == enumerate(q), {{p: 'p', q: 'q'}} [q])\n", a, b, c, d, e, f))
    }, |cx, s| conform_src(cx, s, false, "equal ranges"));
    // pipelines
    let stage = ["map(t)", "filter(fn(x) -> x != 1)", "map(fn(x) -> [x, x])", "concat", "reverse", "enumerate", "zip([5, 6])", "list", "set", "vector", "sort", "flat_map(fn(x) -> (x, 0))", "group_by(2)", "counter", "[1:]", "map(repr)", "filter(t)", "reduce(t2)", "permutations(2)", "sort_by(repr)", "map([0])", "keys", "dict", "map(fn((x, *_)) -> x)", "zip", "sum", "values", "join(',')", "all(t)", "heap"];
    let depth = cx.tier.pick(3, 4);
    cx.explore("pipelines", move |ch| {
        let i = *ch.of(&["[3, 1, 2]", "'aab'", "range(3)", "{1: 'x', 2: 'y'}", "[(1, 2), (3, 4)]", "{2, 1}", "enumerate('hé')", "[]"]);
        let mut s = i.to_string();
        for _ in 0..depth { s += " . "; s += *ch.of(&stage); }
        if !depth_ok(&s) { return None; }
        Some(format!("{}let r = {}\nprint(repr(r))\n", PRE, s))
    }, |cx, s| conform_src(cx, s, false, "pipeline"));
    // callbacks which alter, abandon or nest the iteration
    cx.explore("callbacks with effects", |ch| {
        let t = *ch.of(&["let k = 0\nfn c($0) { k += 1\n print(k, $1)\n return $2 }\nlet r = $3\nprint(repr(r), k)\n", "fn c($0) { if $1 == 2 { exit }\n print($1)\n return $2 }\nlet r = $3\nprint(repr(r))\n", "fn c($0) { for q in $1 { if q == 1 { return $2 } }\n return $1 }\nlet r = $3\nprint(repr(r))\n", "let out = []\nfn c($0) { out . push($1)\n return [$1, $2] . map(fn(z) -> [z, len(out)]) . any(fn(z) -> z[1] > 2) }\nlet r = $3\nprint(repr(r), out)\n"]);
        let s = fill(ch, t, &[&["x", "x, y", "x, *y", "(x, y)"], &["x", "y", "[x, y]"], &["x", "k", "nil", "true", "x == 2", "y", "[x]", "c"], &["map(c, [1, 2, 3])", "filter(c, {1, 2, 3})", "reduce(c, [1, 2, 3, 4])", "any(c, (0, 1, 2))", "all(c, (1, 2, 0, 3))", "find(c, [2, 1, 3])", "rfind(c, [2, 1, 3])", "index_of(c, 'abc')", "rindex_of(c, [4, 2, 5])", "flat_map(c, [[1], [2]])", "group_by(c, [1, 2, 1])", "sort_by(c, [3, 1])", "min_by(c, [3, 1])", "max_by(c, [3, 1, 2])", "map(memoize(c), [1, 2, 1])", "[1, 2] . map(fn(q) -> [q, 3] . map(c))", "map(c, [(1, 2), (2, 1)])", "enumerate([1, 2]) . map(c)"]]);
        if s.contains("fn c(x)") && s.replace("any", "").replace("index", "").contains('y') { return None; }
        let s = if s.contains("let k") { s } else { s.replace("return k }", "return 7 }").replace("return k\n", "return 7\n").replace("[x, k]", "[x, 7]").replace("[y, k]", "[y, 7]").replace("[[x, y], k]", "[y, 7]") };
        if s.contains("_by(c, [") && !s.contains("group") { if !s.contains("fn c(x)") { return None; } if s.contains("sort_by") { return None; } }
        Some(s)
    }, |cx, s| conform_src(cx, s, false, "callback with effects"));
    cx.explore("zip, min, max, sum and friends with many arguments", |ch| {
        let f = *ch.of(&["zip", "min", "max", "sum", "list", "vector", "set", "dict", "range", "heap", "concat", "min_by(fn(x) -> x)", "gcd", "permutations", "combinations", "enumerate", "reverse", "max_by(str)"]);
        let n = ch.pick(5);
        let a = ["1", "[1, 2]", "'ab'", "range(3)", "{1: 2}", "nil", "(5, 0)", "-3", "[[2, 3]]"];
        let l: Vec<&str> = (0..n).map(|_| *ch.of(&a)).collect();
        Some(format!("let r = {}({})\nprint(repr(r))\n", f, l.join(", ")))
    }, |cx, s| conform_src(cx, s, false, "many arguments"));
}

/// bound the size of results: permutations of at most a few elements
fn depth_ok(s: &str) -> bool { s.matches("permutations").count() <= 1 }
