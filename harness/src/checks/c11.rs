//! C11: equality, ordering and hashing. Laws over all triples of a pool of values, and agreement with the reference on all pairs.
use super::*;

pub const META: Meta = Meta { id: "C11", run, assumptions: &["a pool of about 75 values covering every type, all triples", "ordering laws are required between values of one type (int-like values and rationals form one ordered family, int-like values and complex another)"] };

/// (family, expression). Values of one family are ordered among themselves
const POOL: &[(&str, &str)] = &[
    ("nrc", "nil"), ("nrc", "true"), ("nrc", "false"), ("nrc", "0"), ("nrc", "1"), ("nrc", "-1"), ("nrc", "2"), ("nrc", "4611686018427387903"),
    ("r", "rational(0, 1)"), ("r", "rational(1, 1)"), ("r", "rational(1, 2)"), ("r", "rational(-1, 2)"), ("r", "rational('4611686018427387904')"),
    ("c", "1i"), ("c", "1 + 1i"), ("c", "-1i"), ("c", "2 - 1i"),
    ("s", "''"), ("s", "'a'"), ("s", "'b'"), ("s", "'abcdefghi'"), ("s", "'aé'"), ("s", "'1'"),
    ("l", "[]"), ("l", "[1]"), ("l", "[1, 2]"), ("l", "[2]"), ("l", "[rational(1, 1)]"), ("x", "['a']"), ("y", "[[1]]"),
    ("v", "vector([])"), ("v", "vector([1])"), ("v", "(1, 2)"), ("v", "(2, 1)"), ("v", "(rational(1, 1), 2)"),
    ("e", "{}"), ("e", "{1}"), ("e", "{1, 2}"), ("e", "{2, 1}"), ("e", "{3, 1}"), ("e", "{1, 3, 2}"), ("e", "{rational(2, 1), 1}"),
    ("d", "dict([])"), ("d", "{1: 2}"), ("d", "{1: 3}"), ("d", "{1: 2, 3: 4}"), ("d", "{3: 4, 1: 2}"), ("d", "{2: 1, 1: 2}"), ("d", "{1: 2} . default(5)"),
    ("h", "heap([])"), ("h", "heap([1])"), ("h", "heap([1, 2, 3])"), ("h", "heap([1, 3, 2])"), ("h", "heap([3, 2, 1])"), ("h", "heap([1, 1, 2])"), ("h", "heap([2])"),
    ("g", "range(0)"), ("g", "range(3)"), ("g", "range(0, 4, 2)"), ("g", "range(0, 3, 2)"), ("g", "range(5, 1)"), ("g", "range(2, -1, -1)"),
    ("u", "enumerate([1])"), ("u", "enumerate([2])"), ("z2", "enumerate((1,))"),
    ("S", "S(1, 2)"), ("S", "S(1, 3)"), ("S", "S(2, 1)"), ("T", "T(1, 2)"), ("z", "T([1], nil)"),
    ("f", "S"), ("f", "T"), ("f", "print"), ("f", "len"), ("f", "(+ 1)"), ("f", "(+ 2)"), ("f", "(1 +)"), ("f", "f"), ("f", "g"), ("f", "f(1)"), ("f", "f(2)"), ("f", "f(1, 2)"), ("f", "mk(1)"), ("f", "mk(2)"), ("f", "(->a)"), ("f", "(->b)"), ("f", "[1:]"), ("f", "[:1]"), ("f", "map(len)"), ("f", "map(str)"), ("f", "insert(1)"), ("f", "insert(1, 2)"), ("f", "S(1, 2)->m"), ("f", "S(1, 3)->m"), ("f", "mk(1)(1)"),
];

const PRE: &str = "struct S(a, b) { fn m(self, q) { return self->a + q } }\nstruct T(a, b)\nfn f(p, q, r) { return (p, q, r) }\nfn g(p, q, r) { return (p, q, r) }\nfn mk(n) { return fn(k, l) -> n + k + l }\n";

fn laws(cx: &mut Cx, idx: (usize, usize, usize), src: String) {
    if cx.opt_compare { return c14::compare(cx, src, "comparisons of three values"); }
    let (i, j, k) = idx;
    let inp = Input::Run { src, opt: false, stdin: String::new() };
    let o = match cx.exec(&inp) { Some(o) => o, None => return };
    cx.transitions += 1;
    cx.validated += 1;
    if let Input::Run { src, .. } = &inp { cx.fresh(src.as_bytes()); }
    let b: Vec<bool> = o.out.split_whitespace().filter_map(|w| match w { "true" => Some(true), "false" => Some(false), _ => None }).collect();
    if !o.ok() || b.len() != 25 { cx.fail(&inp, "comparisons of three values", "25 booleans".into(), &o); return; }
    // == < > <= >= != for (x, y), (y, z), (x, z), then the mirrored == < of (y, x), then hashing and membership
    let p = |n: usize| &b[n * 6..n * 6 + 6];
    let (eq, lt, gt) = (|n: usize| p(n)[0], |n: usize| p(n)[1], |n: usize| p(n)[2]);
    let mut bad: Vec<String> = Vec::new();
    let mut need = |c: bool, s: &str| if !c { bad.push(s.to_string()); };
    for n in 0..3 {
        need(p(n)[5] != eq(n), "!= is the negation of ==");
        need(!(lt(n) && gt(n)), "< and > exclude each other");
        need(p(n)[3] != gt(n), "<= is the negation of >");
        need(p(n)[4] != lt(n), ">= is the negation of <");
        need(!(eq(n) && (lt(n) || gt(n))), "equal values are not ordered before or after each other");
    }
    need(b[18] == eq(0), "== is symmetric");
    need(b[19] == gt(0) && b[20] == lt(0), "x < y is y > x");
    need(b[21] == eq(0), "x == y if and only if x and y are the same element of a set");
    need(b[22] == eq(0), "x == y if and only if x and y are the same key of a dictionary");
    need(b[23] == eq(0), "x == y if and only if x in [y]");
    need(b[24] == eq(0), "x == y if and only if x in {y}");
    if i == j && POOL[i].1 != "memoize(f)" && !POOL[i].1.starts_with("mk(") { need(eq(0), "equality is reflexive and structural"); }
    need(!(eq(0) && eq(1)) || eq(2), "== is transitive");
    if eq(0) { need(lt(1) == lt(2) && gt(1) == gt(2), "equal values are ordered alike with respect to a third value"); }
    let fam = |i: usize, j: usize| POOL[i].0.chars().any(|c| POOL[j].0.contains(c));
    let same = POOL[i].0 == POOL[j].0 && POOL[j].0 == POOL[k].0;
    let one = same || ['r', 'c'].iter().any(|&c| [i, j, k].iter().all(|&n| POOL[n].0.contains(c)));
    let _ = fam;
    if one {
        need(!(lt(0) && lt(1)) || lt(2), "< is transitive");
        need(!(!gt(0) && !gt(1)) || !gt(2), "<= is transitive");
        let family = POOL[i].0.chars().next().unwrap();
        // these families are totally ordered: elements that are not equal are ordered
        if !"hufgdT".contains(family) && !POOL[i].0.is_empty() { need(eq(0) || lt(0) || gt(0), "distinct values of an ordered type are ordered"); }
    }
    if !bad.is_empty() { cx.fail(&inp, "laws of equality and order", bad.join("; "), &o); }
}

fn run(cx: &mut Cx) {
    let n = POOL.len();
    cx.explore("laws on all triples", |ch| {
        let (i, j, k) = (ch.pick(n), ch.pick(n), ch.pick(n));
        let ops = |x: &str, y: &str| ["==", "<", ">", "<=", ">=", "!="].map(|o| format!("{} {} {}", x, o, y)).join(", ");
        Some(((i, j, k), format!("{}let x = {}, y = {}, z = {}\nprint({})\nprint({})\nprint({})\nprint(y == x, y < x, y > x, len({{x, y}}) == 1, len({{x: 1, y: 2}}) == 1, x in [y], x in {{y}})\n", PRE, POOL[i].1, POOL[j].1, POOL[k].1, ops("x", "y"), ops("y", "z"), ops("x", "z"))))
    }, |cx, (i, s)| laws(cx, i, s));
    cx.explore("pairs against the reference", |ch| {
        let (i, j) = (ch.pick(n), ch.pick(n));
        let o = *ch.of(&["x == y, x != y", "x < y, x > y", "x <= y, x >= y", "x in [y], x not in [y], x in {y}, x in {y: 1}, x in vector([y]), x in heap([y])", "[y] . index_of(x)", "[nil, y, x] . find(fn(q) -> q == x) == x", "x is int, y is function", "{y: 'v'} . default('none') [x]", "x == y == true", "x < y < x, x == x, not (x != x)", "counter([x, y, x]) . values", "set([x, y]) == {y, x}, {x: y} == {x: y}, {x: 1, y: 2} == {y: 2, x: 1}", "[x, y] == [y, x], (x, y) == (x, y), [x] < [y], (x, 1) < (y, 2)", "[x, y] < [x], [x] < [x, y], [x, 2] > [y]", "min(x, y), max(x, y)"]);
        Some(format!("{}let x = {}, y = {}\nprint({})\n", PRE, POOL[i].1, POOL[j].1, o))
    }, |cx, s| conform_src(cx, s, false, "pair"));
    cx.explore("congruence of nesting", |ch| {
        let (i, j) = (ch.pick(n), ch.pick(n));
        let w = *ch.of(&["[W]", "(W, 1)", "S(W, 1)", "{W}", "{W: 1}", "{1: W}", "[[W]]", "{(W, nil)}", "enumerate([W])", "(S(1, [W]),)", "{{W}: {W}}", "heap([W])", "T({1, W}, W)"]);
        let (a, b) = (w.replace('W', "x"), w.replace('W', "y"));
        Some(format!("{}let x = {}, y = {}\nlet a = {}, b = {}\nprint(a == b, a != b, len({{a, b}}), a in [b], b in {{a: 1}})\nprint({{a: 'v'}} . default('none') [b])\n", PRE, POOL[i].1, POOL[j].1, a, b))
    }, |cx, s| conform_src(cx, s, false, "nested"));
    cx.explore("identity of functions", |ch| {
        let fs = ["f", "g", "f(1)", "f(1, 2)", "f(1)(2)", "f(2)", "mk(1)", "mk(2)", "a", "b", "a(1)", "b(1)", "fn(x) -> x", "h[0]", "h[1]", "(+ 1)", "(+ 2)", "(1 +)", "print", "S(1, 2)->m", "s->m", "t->m", "map(len)", "map(a)", "map(b)", "ma", "(->a)", "S", "[1:]", "[2:]"];
        let (x, y) = (*ch.of(&fs), *ch.of(&fs));
        Some(format!("{}let a = mk(1), b = mk(2), h = [fn(i) -> [i] for2 i], ma = memoize(a), s = S(1, 2), t = S(1, 3)\nlet x = {}, y = {}\nprint(x == y, len({{x, y}}), x in [y], {{x: 'x', y: 'y'}}[x])\n", PRE, x, y).replace("h = [fn(i) -> [i] for2 i]", "h = [0, 1] . map(fn(i) -> fn(k) -> i + k)"))
    }, |cx, s| conform_src(cx, s, false, "function identity"));
    // the same keys under growth of the table, and removal
    cx.explore("keys in larger tables", |ch| {
        let (i, j) = (ch.pick(n), ch.pick(n));
        let m = *ch.of(&["8", "33"]);
        Some(format!("{}let x = {}, y = {}, s = {{x}}, d = {{x: 'x'}}\nfor i in range({}) {{ s . push(-i - 5); d[(i, 'k')] = i }}\nprint(y in s, y in d, x in s, d[x], len(s))\ns . push(y)\nd[y] = 'y'\nprint(len(s), len(d), d[x], s . remove(x), y in s, len(s), d . remove(y), x in d)\n", PRE, POOL[i].1, POOL[j].1, m))
    }, |cx, s| conform_src(cx, s, false, "larger tables"));
}
