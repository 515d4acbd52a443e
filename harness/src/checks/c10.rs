//! C10: collections under every operation history, from several initial states; every prefix of a history is itself checked
//! because each step prints its result and the whole state seen through both names of the collection.
use super::*;

pub const META: Meta = Meta { id: "C10", run, assumptions: &["histories of up to 3 operations over an alphabet of 12 to 26 operations per collection (4 in the thorough tier)", "the iteration order of a heap beyond its smallest element is not specified, heaps are compared by draining a copy"] };

fn history(cx: &mut Cx, name: &str, init: &[&str], show: &str, ops: &[&str], depth: usize) {
    cx.explore(name, |ch| {
        let mut s = format!("fn drain(h) {{ let r = []\n while h {{ r . push(h . pop) }}\n return r }}\nlet e = [1], a = {}, b = a\nprint({})\n", ch.of::<&str>(init), show);
        for k in 0..depth {
            let op = ch.of::<&str>(ops);
            match op.strip_prefix('!') {
                Some(op) => s.push_str(&format!("{}\nprint({})\n", op, show)),
                None => s.push_str(&format!("let r{} = ({})\nprint(repr(r{}), {})\n", k, op, k, show)),
            }
        }
        Some(s)
    }, |cx, s| conform_src(cx, s, false, name));
    // an operation which fails leaves the collection as it was, and the session goes on
    cx.explore(&format!("{}, which go on after an error", name), |ch| {
        let mut s = vec!["fn drain(h) { let r = []; while h { r . push(h . pop) }; return r }".to_string(), "let e = [1]".into(), format!("let a = {}", ch.of::<&str>(init)), "let b = a".into()];
        for k in 0..3 {
            let op = ch.of::<&str>(ops);
            s.push(match op.strip_prefix('!') { Some(op) => op.to_string(), None if name == "heap histories" => format!("let r{} = ({})", k, op), None => op.to_string() });
            s.push(format!("print({})", show));
        }
        Some(s)
    }, |cx, s| super::c19::judge(cx, s, name));
}

fn run(cx: &mut Cx) {
    let d = cx.tier.pick(3, 4);
    history(cx, "list histories", &["[]", "[e]", "[3, 1, 2]", "[e, 'x', nil, (1, 2)]"], "repr(a), repr(b), len(b)", &[
        "a . push(1)", "b . push(e)", "a . push_front(2)", "a . pop", "b . pop_front", "a . insert(0, 'i')", "b . insert(2, e)", "a . remove(0)", "b . remove(1)",
        "a . clear", "a[0] = 'z'", "b[-1] = [b[0]]", "a += [9]", "a . peek", "e . push(5)", "a[1:] . push(1)", "(b = a)", "a . reverse", "a . set . len",
    ], d);
    history(cx, "list histories with other indices", &["[1, 2, 3, 4]", "[e, e]"], "repr(a), repr(b), len(b)", &[
        "a . insert(len(a), 'end')", "a . insert(5, 'far')", "a . insert(1, a[0])", "a . remove(len(a) - 1)", "a . remove(9)", "a[1] = a[0]", "a[len(a) - 1] .= repr", "!a[0], a[1] = a[1], a[0]", "a . push(a . pop)", "a . push(a . pop_front)", "a . push_front(a[:2])",
        "a += a", "b . push(...[7])", "a *= 2", "a = a[::-1]", "b = b + [a[0]]", "a[0] in b", "a . sort_by(repr)", "a . index_of(3)", "a . insert('x', 1)", "a . remove(nil)", "a['x'] = 1",
    ], d);
    history(cx, "set histories", &["{}", "{1}", "{2, 1, 'a'}", "{(1, 2), 3}"], "repr(a), repr(b), len(b)", &[
        "a . push(1)", "a . push('b')", "b . push((1, 2))", "a . remove(1)", "a . remove((1, 2))", "b . remove('z')", "a . pop", "a . clear", "b . union([4, 1])", "a . intersect({1, 'a', 9})", "a . difference([1])", "a . union('ab')",
        "a |= {7}", "a &= {1, 2}", "a -= {1}", "a ^= {1, 5}", "a . peek", "1 in b", "a . list", "b = set(a)", "a . push(nil)", "a . intersect(range(3))", "a . difference({})", "a . union({3: 4})", "a . push(a)", "a . push([b])", "a . union([b])", "a . intersect([a])", "a . remove(a)", "a in b", "a . push(e) . push((2, [a]))",
    ], d);
    history(cx, "dict histories", &["{1: 'x'}", "dict([])", "{2: e, 'k': 1, 3: nil}", "dict([]) . default('d')", "{1: e} . default(fn() -> [])"], "repr(a), repr(b), len(b)", &[
        "a[b] = 1", "a[[b]]", "b[{a}] .= repr", "a . insert([a], 2)", "a[1] = a", "a[1] = 'y'", "a['k'] = e", "a . insert(2, 'i')", "b . insert('k', e)", "a . remove(1)", "b . remove('zz')", "a[1]", "b['k']", "a[5] .= repr", "a['k'] += [1]", "a . pop", "a . clear", "a . keys", "a . values", "a . peek", "1 in b", "a . default(0)", "b . default(list)", "e . push(2)", "a . list", "b = dict(a)", "a[(1, 2)] = a[1]", "a[nil] = 3", "a . keys . push(8)", "a . values . clear",
    ], d);
    history(cx, "heap histories", &["heap([])", "heap([3, 1, 2])", "heap([2, 2, 1, 5, 4, 3])"], "drain(copy(a)), len(b)", &[
        "a . push(0)", "b . push(2)", "a . push(9)", "a . pop", "b . pop", "a . peek", "a . clear", "2 in a", "a . len", "a . list . len", "(b = copy(a)) . len", "a . sort", "(a = heap(sort(a))) . len",
    ], d);
    history(cx, "vector histories", &["vector([])", "(1, 2)", "(e, 3, 'x')"], "repr(a), repr(b), len(b)", &[
        "a[0] = 'z'", "b[1] = e", "a[-1] += 1", "a += 1", "b *= 2", "a = a + b", "a . push(1)", "a . pop", "a . clear", "a . peek", "e . push(3)", "(b = a)", "a[1:]", "a . reverse", "a . list", "1 in a", "!a[0], b[-1] = 5, 6", "b -= a", "a . copy",
    ], d);
    // collections of collections: the same object reached by several paths
    history(cx, "nested histories", &["[e, e]", "{1: e, 2: [e]}", "(e, [e], {3: e})"], "repr(a), repr(e)", &[
        "e . push(2)", "a[1] . push(3)", "a[1] = e", "a[1] = [4]", "e = [5]", "e . clear", "a[1][0] = 6", "a[1] += [7]", "e . pop", "b[1] . push(e)", "a[1] = copy(e)", "b[1] . pop", "a = copy(a)", "e . push_front(e[0])",
    ], d);
    // one operation on every kind of collection with every kind of argument
    cx.explore("every operation on every collection", |ch| {
        let c = *ch.of(&["[]", "[1, 2]", "{}", "{1, 2}", "dict([])", "{1: 2}", "heap([])", "heap([1, 2])", "vector([])", "(1, 2)", "'ab'", "range(2)", "enumerate([1])", "1", "nil", "print", "fn(x) -> x", "(->x)"]);
        let v = *ch.of(&["1", "0", "-1", "2", "'a'", "nil", "true", "[1]", "(1, 2)", "{1}", "c", "print", "1i", "range(2)", "heap([1])", "{1: 2}"]);
        let f = *ch.of(&["c . push(V)", "c . push_front(V)", "c . pop", "c . pop_front", "c . insert(V, 5)", "c . insert(0, V)", "c . remove(V)", "c . clear", "c . peek", "c . keys", "c . values", "c . default(V)", "c . union(V)", "c . intersect(V)", "c . difference(V)", "V in c", "V not in c", "c . len", "push(V, c)", "insert(V, V, c)", "c + V", "c - V", "c * V", "c | V", "c & V", "c ^ V", "c[V]", "c[V] = 3"]);
        if !f.contains('V') && v != "1" { return None; }
        Some(format!("struct S(x)\nlet c = {}\nlet r = ({})\nprint(repr(r), repr(c))\nprint(r == c, len(c))\n", c, f.replace('V', v)))
    }, |cx, s| conform_src(cx, s, false, "operation on any type"));
    cx.explore("sets and dictionaries of every key", |ch| {
        let k = ["1", "true", "'1'", "nil", "1i", "rational(1, 2)", "(1, 2)", "[1]", "{1}", "{1: 1}", "heap([1])", "range(3)", "S(1)", "S(2)", "S", "print", "fn() -> 1", "''", "[]", "{}", "vector([])", "0", "false", "(1, (2, [3]))", "enumerate([1])", "[:1]", "int(5)"];
        let (x, y, z) = (*ch.of(&k), *ch.of(&k), if ch.flag() { *ch.of(&k) } else { "1" });
        Some(format!("struct S(v)\nlet x = {}, y = {}, z = {}\nlet s = {{x, y}}, d = {{x: 'x', y: 'y'}}\nprint(len(s), len(d), repr(s), repr(d))\nprint(s . remove(z), d . remove(z), repr(s), repr(d))\ns . push(z)\nd[z] = 'z'\nprint(repr(s), repr(d), x in s, y in d, z in s, d[x], d[y], d[z])\nprint(s == {{z, x, y}}, d . keys == s, counter([x, y, z, x]) . values, set([x, y, z]) . len, set([x, y]) == set([y, x]))\n", x, y, z))
    }, |cx, s| conform_src(cx, s, false, "keys"));
}
