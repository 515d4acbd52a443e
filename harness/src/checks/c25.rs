//! C25: copies, aliases and memoization. Object graphs are enumerated with all their sharing and cycles; which node each path
//! reaches is computed here, and made observable by marking nodes through every path.
use super::*;

pub const META: Meta = Meta { id: "C25", run, assumptions: &["graphs of up to 4 nodes with up to 2 references each, observed along paths of up to 3 references", "keys of sets and dictionaries which are altered after their insertion are not specified"] };

fn exact(cx: &mut Cx, src: String, out: String, note: &str) {
    if cx.opt_compare { return c14::compare(cx, src, note); }
    let i = Input::Run { src, opt: false, stdin: String::new() };
    let o = match cx.exec(&i) { Some(o) => o, None => return };
    if let Input::Run { src, .. } = &i { cx.fresh(src.as_bytes()); }
    cx.transitions += 1;
    cx.validated += 1;
    if !o.ok() || o.out != out { cx.fail(&i, note, format!("stdout: {}", out), &o); } else if let Input::Run { src, .. } = &i { cx.sample(format!("{} => {}", src, out)); }
}

/// Kinds of nodes: a literal with a mark and two references, and how these are reached
const KINDS: &[(&str, &str, [&str; 2])] = &[
    ("[0, nil, nil]", "[0]", ["[1]", "[2]"]), ("(0, nil, nil)", "[0]", ["[1]", "[2]"]), ("{'t': 0, 1: nil, 'b': nil}", "['t']", ["[1]", "['b']"]), ("S(0, nil, nil)", "->t", ["->a", "->b"]),
    // more references per node, and references which are nested in values without identity of their own
    ("[[0], {'r': nil}, (nil, 1)]", "[0][0]", ["[1]['r']", "[2][0]"]), ("{0: 0} . default([nil, nil])", "[0]", ["[5][0]", "[6][1]"]), ("S([0], nil, [nil])", "->t[0]", ["->a", "->b[0]"]),
];

type Graph = Vec<(usize, [Option<usize>; 2])>;

fn build(g: &Graph) -> String {
    let mut s = String::from("struct S(t, a, b)\n");
    for (i, (k, _)) in g.iter().enumerate() { s += &format!("let n{} = {}\n", i, KINDS[*k].0); }
    for (i, (k, r)) in g.iter().enumerate() { for (j, x) in r.iter().enumerate() { if let Some(x) = x { s += &format!("n{}{} = n{}\n", i, KINDS[*k].2[j], x); } } }
    s
}

/// All paths from a node of up to d references, and the nodes which they reach
fn paths(g: &Graph, from: usize, d: usize) -> Vec<(String, usize)> {
    let mut all = vec![(String::new(), from)];
    let mut last = all.clone();
    for _ in 0..d {
        last = last.iter().flat_map(|(p, n)| { let (k, r) = &g[*n]; (0..2).filter_map(move |j| Some((format!("{}{}", p, KINDS[*k].2[j]), r[j]?))).collect::<Vec<_>>() }).collect();
        all.extend(last.clone());
    }
    all
}

fn graphs(cx: &mut Cx) {
    let deep = cx.thorough();
    for (name, n, kinds, slots) in [("copies of graphs of two nodes", 2, 7, 2), ("copies of graphs of three nodes", 3, 4, if deep { 2 } else { 1 }), ("copies of graphs of three lists and structs", 3, 0, 2), ("copies of graphs of four nodes", 4, if deep { 4 } else { 0 }, 1)] {
        if cx.memory && !deep && slots == 2 { continue; }
        cx.explore(name, |ch| {
            let g: Graph = (0..n).map(|_| {
                let k = if kinds == 0 { *ch.of(&[0, 3]) } else { ch.pick(kinds) };
                let mut r = [None, None];
                for j in 0..slots { let x = ch.pick(n + 1); if x < n { r[j] = Some(x); } }
                (k, r)
            }).collect();
            // other nodes are of interest only when they are reached
            let p = paths(&g, 0, 3);
            if (1..n).any(|i| p.iter().all(|x| x.1 != i)) { return None; }
            let w = ch.pick(if n == 2 { 6 } else { 3 });
            Some((g, w))
        }, |cx, (g, w)| {
            let p = paths(&g, 0, 3);
            let mark = |n: usize| KINDS[g[n].0].1;
            let show = |root: &str| format!("[{}]", p.iter().map(|(q, n)| format!("{}{}{}", root, q, mark(*n))).collect::<Vec<_>>().join(", "));
            // the ways in which a copy is made; its root; and the variable in which the original remains
            let (make, root) = [("let c = copy(n0)\n", "c"), ("let c = [n0] ** 2\n", "c[0]"), ("let f = fn(x) -> x . copy\nlet c = (f(n0), 7)\n", "c[0]"), ("let c = copy([n0, n0, {1: n0}])\n", "c[2][1]"), ("let c = n0, m = copy([n0])[0]\nn0 = m\n", "c"), ("let c = [n0] . map(copy)\n", "c[0]")][w];
            let mut src = build(&g) + make;
            let (mut a, mut b) = (vec![0i64; g.len()], vec![0i64; g.len()]);
            let mut out = String::new();
            let list = |a: &[i64]| format!("[{}]", p.iter().map(|x| a[x.1].to_string()).collect::<Vec<_>>().join(", "));
            let mut k = 0;
            for (q, n) in &p {
                k += 1;
                src += &format!("{}{}{} = {}\n", root, q, mark(*n), k);
                b[*n] = k;
                if k % 2 == 1 { k += 1; src += &format!("n0{}{} = {}\n", q, mark(*n), k); a[*n] = k; }
                src += &format!("print({}, {})\n", show("n0"), show(root));
                out += &format!("{} {}\n", list(&a), list(&b));
            }
            // changes of references
            if let Some(t) = g[0].1[0] {
                let s = KINDS[g[0].0].2[0];
                src += &format!("{}{} = 'cut'\nprint({}{}{}, n0{}{})\n", root, s, root, s, "", s, mark(t));
                out += &format!("cut {}\n", a[t]);
            }
            exact(cx, src, out, "graph");
        });
    }
    // collections whose elements cannot be assigned
    cx.explore("copies of nested collections", |ch| {
        const V: &[&str] = &["e", "[e]", "(e, 1)", "{e}", "{1: e}", "{e: 1}", "heap([e])", "S(e)", "enumerate(e)", "dict([]) . default(e)", "[e, e]", "(e, [e], e)", "{(1, e), 2}", "[heap([e, [9]])]", "enumerate([e])", "S", "len", "[(e, {'k': S(e)})]", "{1: 2} . default(fn() -> e)", "fn() -> e", "memoize(fn() -> e)", "push(e)", "range(3)", "nil", "'text'", "rational(1, 2)"];
        let outer = *ch.of(&["$", "[$, $]", "($, 0)", "{0: $}", "S($)", "heap([$])", "{0: 1} . default($)", "enumerate([$])"]);
        let inner = *ch.of(V);
        let c = *ch.of(&["copy(v)", "([v] ** 1)[0]", "[v, v] . copy . pop"]);
        // e itself is not altered when it is a key
        let op = *ch.of(&["c == v, v == copy(c), repr(c) == repr(v), typeof(c) == typeof(v)", "repr(c), repr(v), (e . push(5)), repr(c), repr(v)", "(w(c)), repr(c), repr(v), repr(e)", "(w(v)), repr(c), repr(v), repr(e)", "(w(c)), (w(v)), c == v, repr(c), repr(v)"]);
        let v = outer.replace('$', inner);
        if op.contains("push(5)") && (inner.contains("{e}") || inner.contains("{e:") || inner.contains("{(1, e)") || outer.contains("heap")) { return None; }
        Some(format!("struct S(f)\nlet e = [1, 2]\nlet v = {}\nfn w(c) {{\n if c is list {{ c . push(8) }}\n elif c is dict {{ c[3] = 4\n if 0 in c {{ w(c[0]) }} }}\n elif c is set {{ c . push(6) }}\n elif c is S {{ w(c->f)\n c->f = 'f' }}\n elif c is vector and bool(c) {{ w(c[0])\n c[0] = 'z' }}\n 0\n}}\nlet c = {}\nprint({})\n", v, c, op))
    }, |cx, s| conform_src(cx, s, false, "nested copy"));
}

fn aliases(cx: &mut Cx) {
    cx.explore("aliases", |ch| {
        let v = *ch.of(&["[1, 2]", "(1, 2)", "{1, 2}", "{1: 2}", "heap([2, 1])", "S(1, 2)", "[[1], [2]]", "([1], 2)"]);
        let bind = *ch.of(&["let b = a", "let b\nb = a", "let c = [a], b = c[0]", "let c = (0, a), b = c[1]", "let c = {'k': a}, b = c['k']", "let (b, _) = (a, 1)", "let *_, b = [0, a]", "let [b] = 1", "fn f(x) -> x\nlet b = f(a)", "let b = (fn(x = a) -> x)()", "let b = (fn(*x) -> x[0])(a)", "let f = fn() -> a\nlet b = f()", "let b = if true then a else nil", "let b = a or nil", "let b = [a] . map(fn(x) -> x) . pop", "let b = [a][:][0]", "let b = ([a] + [])[0]", "let b = ([a] * 2)[1]", "let b = [[a]] . concat . peek", "let b = [a] . reverse . pop", "let b = zip([a], [1])[0][0]", "let b = S(a, 0)->x", "let s = S(0, 0)\ns->y = a\nlet b = s->y", "let b = memoize(fn() -> a)()", "let f = (fn(x, y) -> x)(a)\nlet b = f(1)", "let b = dict([]) . default(a)[3]", "let b\nfor x in [a] { b = x }", "let b = list([a])[0]", "let b = vector([a])[0]", "let b = [a] . filter(fn(x) -> true)[0]", "let b = [0, a] . group_by(2)[0][1]", "let b = [a] . find(fn(x) -> true)", "let b = {1: a} . values . pop", "let b = heap([a]) . pop", "let b = [(1, a)] . dict . pop . pop", "let b = permutations(1, [a])[0][0]", "let b = (fn(x) { x = x\n return x })(a)", "let b = list(a)", "let b = a . copy", "let b = a[:]", "let b = [...a]", "let b = ([a] ** 1)[0]", "let b = set([0]) . union([1]) . map(fn(x) -> a)[0]", "let b = reduce(fn(x, y) -> x, [a, 1])", "let b = max_by(fn(x) -> 1, [a])", "let b = [a] . sort_by(fn(x) -> 1)[0]", "let b = enumerate([a]) . list[0][1]", "let b = (a)", "let b = (->x)(S(a, 1))", "let b = { 'q': [a] }['q'][0]", "let b = a\nb = copy(b)", "let b = a\na = copy(b)"]);
        let m = *ch.of(&["b . push(7)", "a . push(7)", "b[0] = 9", "a[0] = 9", "b->x = 9", "a->x = 9", "b . pop", "a . clear", "b[0] . push(5)", "b += [4]", "a |= {5}", "b . insert(0, 3)", "a[-1] += 1", "b .= copy\na[0] = 3", "let k = b\nk[1] = 'k'", "for x in b { if x is list { x . push(1) } }"]);
        if bind == "let [b] = 1" { return None; }
        let scope = *ch.of(&["$", "fn main(p) {\n let q = p\n $\n}\nmain(0)\n", "do {\n let q = 1\n $\n}\n"]);
        Some(format!("struct S(x, y)\n{}print('end')\n", scope.replace('$', &format!("let a = {}\n{}\n{}\nprint(repr(a), repr(b), a == b)\n", v, bind, m))))
    }, |cx, s| conform_src(cx, s, false, "alias"));
    cx.explore("values which are returned by functions of collections", |ch| {
        let v = *ch.of(&["[[1], [2], [1]]", "([1], [2])", "{1: [1], 2: [2]}", "'ab'", "[(3, [1]), (1, [2])]"]);
        let f = *ch.of(&["sort", "reverse", "list", "vector", "fn(x) -> x[:1]", "fn(x) -> x[::-1]", "fn(x) -> x . map(fn(y) -> y)", "fn(x) -> x . filter(bool)", "fn(x) -> zip(x, x)", "fn(x) -> enumerate(x)", "fn(x) -> permutations(2, x)", "fn(x) -> combinations(1, x)", "fn(x) -> group_by(2, x)", "fn(x) -> group_by(len, x) . values", "concat", "fn(x) -> x + x", "fn(x) -> x * 2", "fn(x) -> [x] ** 2", "fn(x) -> [...x, ...x]", "fn(x) -> (x, x)", "fn(x) -> flat_map(fn(y) -> [y, y], x)", "dict", "set", "counter", "copy", "fn(x) -> min(x)", "fn(x) -> x . keys", "fn(x) -> x . values", "fn(x) -> sort_by(repr, x)", "fn(x) -> x . list . union"]);
        let m = *ch.of(&["for y in v { if y is list { y . push(9) } elif y is vector and len(y) == 2 { y[1] = 'm' } }", "if r is list { r . push(4) } elif r is vector { r[0] = 4 } elif r is dict { r[4] = 4 } elif r is set { r . push(4) }", "for y in r { if y is list { y . push(9) } elif y is vector { y[0] = 'm' } }", "if v is list { v . clear } elif v is dict { v[7] = 8 }"]);
        if m.starts_with("for y in") && (f == "set" || f == "counter" || f == "dict" || f.contains("group_by(len")) { return None; }
        Some(format!("let v = {}\nlet f = {}\nlet r = f(v)\nprint(repr(r))\n{}\nprint(repr(r), repr(v))\n", v, f, m))
    }, |cx, s| conform_src(cx, s, false, "returned value"));
}

fn memo(cx: &mut Cx) {
    const ARGS: &[&str] = &["1", "true", "'1'", "nil", "1i", "rational(1, 1)", "[1]", "vector([1])", "'', 1", "1, ''", "...[1]", "[...[1]]", "{1}", "{1: 1}", "0", "1, 1", "nil, nil", "S(1)", "range(1, 2)", "[1] . copy", "fn(x) -> x", "print", "'a' * 20", "1 + 0i", "[nil]", "enumerate([1])", "heap([1])", "1, 2, 3", "false", "(1, [1])", "f"];
    let d = cx.tier.pick(3, 4);
    cx.explore("histories of calls of memoized functions", |ch| {
        let f = *ch.of(&["fn f0(x, y = 5) { n += 1\n print('call', repr(x), y)\n return n }", "fn f0(*x) { n += 1\n print('call', len(x))\n return [n] }", "fn f0(x?, y?) { n += 1\n print('call')\n return (n, x) }", "fn f0(x, y) { n += 1\n print('call')\n return n }"]);
        let deep = ch.flag();
        let k = if deep { d } else { 2 };
        let few = ["1", "true", "[1]", "1, 1", "'1'", "...[1]", "rational(1, 1)", "vector([1])"];
        let c: Vec<&str> = (0..k).map(|_| if deep { *ch.of(&few) } else { *ch.of(ARGS) }).collect();
        let show = *ch.of(&["let r$ = f($a)\nif r$ is function { print('partial') } else { print(repr(r$)) }\n", "let r$ = f($a)\nprint(r$ is function)\nif r$ is list { r$ . push('m')\n print(r$) }\n"]);
        let mut s = format!("struct S(v)\nlet n = 0\n{}\nlet f = memoize(f0)\n", f);
        for (i, a) in c.iter().enumerate() { s += &show.replace("$a", a).replace('$', &i.to_string()); }
        Some(s + "print(n)\n")
    }, |cx, s| conform_src(cx, s, false, "memoized"));
    cx.explore("what can be memoized", |ch| {
        let f = *ch.of(&["f0", "fn(x) -> f0(x)", "f1(1)", "S", "M->m", "(->v)", "len", "repr", "(+ 1)", "(+)", "sum", "print", "[0]", "[1:]", "memoize(f0)", "nil", "5", "'f'", "push(3)", "M", "T", "list", "fn() -> f0(1)", "range", "S(1)->m2", "min", "({1: 2})"]);
        let u = *ch.of(&["g([3, 4])", "g([3, 4]), g([3, 4]), g([4, 3])", "g('ab'), g('ab')", "[[1], [2], [1]] . map(g)", "[[2, 1], [1, 2]] . sort_by(g)", "[[1, 2], [3, 4]] . reduce(g)", "g(...[[1]])", "g(S(1))", "[S(1), S(1), S(2)] . map(g)", "g is function, typeof(g) == function", "g == g, g == memoize(g), [g] . find(g)", "g()", "g([1], [2])", "g([1], [2]), g([1])", "[[5], [6]] . filter(g)", "dict([]) . default(g)[3]", "{g: 1}[g], g in {g}", "(fn(h) -> h([7, 8]))(g)", "[9, 8] . g", "copy(g) == g", "[[1], [2]] . min_by(g), [[1], [2]] . group_by(g)", "g([1]), g((1, )), g({1})", "g(2) is function", "bool(g), [g, g] == [g, g]"]);
        // in which order the function is called is not specified
        if u.contains("sort_by") && (f.contains("f0") || f.contains("f1")) { return None; }
        Some(format!("struct S(v) {{\n fn m2(self, x) {{\n  print('m2')\n  return [self->v, x]\n }}\n}}\nstruct T(a, b)\nmodule M {{\n fn m(x) {{\n  print('m')\n  return x\n }}\n}}\nfn f0(x) {{\n print('f0', repr(x))\n return [x]\n}}\nfn f1(y, x) {{\n print('f1', y, repr(x))\n return x\n}}\nlet g = memoize({})\nprint('made')\nprint({})\n", f, u.replace("(1, )", "vector([1])")))
    }, |cx, s| conform_src(cx, s, false, "memoized value"));
    cx.explore("recursion, errors and effects of memoized functions", |ch| {
        let f = *ch.of(&["@memoize\nfn f(x) {\n print('f', x)\n return if x < 2 then x else f(x - 1) + f(x - 2)\n}", "@memoize\nfn f(x) {\n k += 1\n if k % 2 == 1 { return 1 / 0 }\n return k\n}", "@memoize\nfn f(x) {\n k += 1\n if x > 0 { f(x - 1) }\n return k\n}", "let f = memoize(fn(x) {\n k += 1\n return fn() {\n  k += x\n  return k\n }\n})", "@memoize\nfn f(x) {\n print(x)\n if x == 2 { exit }\n return x\n}", "@memoize\nfn f(x) {\n k += 1\n return if k == 1 then f(x) else k\n}", "fn mk() {\n let c = 0\n return memoize(fn(x) {\n  c += 1\n  return [c, x]\n })\n}\nlet f = mk(), g = mk()", "@memoize\nfn f(x) {\n for i in range(x) { if i == 1 { return f(i) } }\n print('end', x)\n return x\n}", "struct C(v) {\n fn get(self, x) {\n  k += 1\n  return [self->v, x, k]\n }\n}\nlet f = memoize(C(3)->get)"]);
        let n = 1 + ch.pick(3);
        let c: Vec<&str> = (0..n).map(|_| *ch.of(&["f(3)", "f(2)", "f(0)", "f(1)", "[0, 1, 0] . map(f)", "(fn() -> f(2))()", "f(3) == f(3)", "g(1)", "f(1)()"])).collect();
        if c.contains(&"g(1)") && !f.contains("g = mk") || c.contains(&"f(1)()") && !f.contains("return fn()") { return None; }
        let show = if f.contains("return fn()") { "let q = $\nprint(if q is function then q() else q is list)\n" } else { "print($)\n" };
        Some(format!("let k = 0\n{}\n{}print('k', k)\n", f, c.iter().enumerate().map(|(i, c)| show.replace('$', c).replace('q', &format!("q{}", i))).collect::<String>()))
    }, |cx, s| conform_src(cx, s, false, "memoized recursion"));
}

fn run(cx: &mut Cx) {
    graphs(cx);
    aliases(cx);
    memo(cx);
}
