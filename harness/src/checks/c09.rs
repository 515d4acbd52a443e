//! C09: indexing and slicing. Every length, every index and every start/stop/step over a range that covers all clamping cells.
use super::*;

pub const META: Meta = Meta { id: "C09", run, assumptions: &["sequence lengths up to 5 (7 in the thorough tier); bounds within two of the length plus boundary integers"] };

fn seq(kind: &str, n: usize) -> String {
    match kind {
        "list" => format!("[{}]", (0..n).map(|k| k.to_string()).collect::<Vec<_>>().join(", ")),
        "vector" => format!("vector([{}])", (0..n).map(|k| k.to_string()).collect::<Vec<_>>().join(", ")),
        "str" => format!("'{}'", &"abcdefghij"[..n]),
        "utf8" => format!("'{}'", "é漢a😀ßz日".chars().take(n).collect::<String>()),
        "long" => format!("'{}'", "0é2345678漢".chars().take(n).collect::<String>()),
        _ => format!("['{}', [{}], nil]", n, n),
    }
}

fn run(cx: &mut Cx) {
    let maxlen = cx.tier.pick(5, 7);
    let kinds = ["list", "vector", "str", "utf8"];
    let big = ["4611686018427387902", "-4611686018427387904", "4611686018427387903", "2147483648", "-2147483649", "-4294967296", "4294967295"];
    cx.explore("slices", |ch| {
        let k = *ch.of(&kinds);
        let n = ch.pick(maxlen + 1);
        let w = n as i64 + 2;
        let bound = |ch: &mut crate::engine::Ch, extra: usize| -> String {
            let j = ch.pick((2 * w + 1) as usize + 2 + extra);
            match j { 0 => "".into(), 1 => "nil".into(), _ if j < 2 + extra => ["4611686018427387903", "-4611686018427387904", "2147483648", "-2147483649", "4294967296"][j - 2].into(), _ => ((j - 2 - extra) as i64 - w).to_string() }
        };
        let (a, b) = (bound(ch, 2), bound(ch, 2));
        let c = bound(ch, 3);
        let form = ch.pick(if c.is_empty() { 3 } else { 2 });
        let sl = if form == 2 { format!("{}:{}", a, b) } else { format!("{}:{}:{}", a, b, c) };
        Some(match form { 1 => format!("let s = [{}]\nprint(repr({} . s))\n", sl, seq(k, n)), _ => format!("let x = {}\nlet y = x[{}]\nprint(repr(y), len(y), repr(x), typeof(y))\n", seq(k, n), sl) })
    }, |cx, s| conform_src(cx, s, false, "slice"));
    cx.explore("reading and assigning one element", |ch| {
        let k = *ch.of(&["list", "vector", "str", "utf8", "long"]);
        let n = ch.pick(if k == "long" { 10 } else { maxlen + 1 });
        let w = n as i64 + 3;
        let j = ch.pick((2 * w + 1) as usize + big.len());
        let i = if j < big.len() { big[j].to_string() } else { ((j - big.len()) as i64 - w).to_string() };
        let f = *ch.of(&["print(repr(x[I]))", "x[I] = 'new'\nprint(x)", "x[I] = x\nprint(len(x), x[I] is any)", "x[I] += 5\nprint(x)", "x[I] .= str\nprint(repr(x))", "print(x . [I])", "x[I], z = 8, 9\nprint(x, z)", "x[I], x[0] = 8, 9\nprint(x)", "print([x] . map([I:]))", "x[I] = (x[I] = 4; 5)", "x[I] max= 9\nprint(x)", "print(x[I][0])", "x[I] <<= 3; x[0] = x[I]; print(x)"]);
        if f.contains(" ; 5)") || f.contains("; 5)") { return None; }
        Some(format!("let x = {}, z = 0\nlet u = x\n{}\nprint(x, u)\n", seq(k, n), f.replace('I', &i)))
    }, |cx, s| conform_src(cx, s, false, "index"));
    cx.explore("indices and sequences of every type", |ch| {
        let x = *ch.of(&["nil", "true", "1", "2i", "rational(1, 2)", "''", "'a'", "'aé'", "[]", "[1, 2]", "(1, 2)", "{1, 2}", "{}", "{1: 2, 'a': 3}", "dict([]) . default('d')", "dict([]) . default(fn() -> [])", "heap([1, 2])", "range(3)", "enumerate([5, 6])", "print", "fn(q) -> q", "S(1, 2)", "S", "memoize(fn(q) -> q)", "[1:]", "{nil: 'n', true: 't', 0: 'z', (1, 2): 'v'}"]);
        let i = *ch.of(&["0", "1", "-1", "true", "false", "nil", "'a'", "''", "0i", "1i", "rational(1, 1)", "rational(1, 2)", "(1, 2)", "[1]", "{1}", "print", "S(1, 2)", "2", "range(1)"]);
        let f = *ch.of(&["print(repr(x[I]))", "x[I] = 'new'\nprint(x[I])", "x[I] += 1\nprint(x[I])", "print(repr(x[I:]))", "print(repr(x[:I]))", "print(repr(x[::I]))", "print(repr([1, 2, 3][I:x]))", "print(repr('abc'[::I][x:]))", "print(x . [I])", "let s = [I:x]\nprint(s is function, s('abc'))"]);
        Some(format!("struct S(a, b)\nlet x = {}\n{}\nprint(x)\n", x, f.replace('I', i)))
    }, |cx, s| conform_src(cx, s, false, "index of any type"));
    cx.explore("nested and chained indexing", |ch| {
        let i = ["0", "-1", "1", "2", "-4", "'k'", "1:", "::-1", ":-1", "::2"];
        let (a, b, c) = (*ch.of(&i), *ch.of(&i), *ch.of(&i));
        let x = *ch.of(&["[[1, 2, 3], 'héllo', (4, [5, 6])]", "{'k': ['é漢', {0: 'zero', 'k': 'kk'}], 0: 'ab', 1: [[], [7]]}", "([1, [2, [3, 4]]], 'abc')", "'😀é'"]);
        let f = ch.pick(5);
        let lv = !a.contains(':') && !b.contains(':') && !c.contains(':');
        Some(match f { 0 => format!("let x = {}\nprint(repr(x[{}][{}][{}]))\n", x, a, b, c), 1 if lv => format!("let x = {}\nx[{}][{}] = 'N'\nprint(repr(x))\nx[{}] = 'M'\nprint(repr(x))\n", x, a, b, c), 2 => format!("let x = {}\nlet y = x[{}]\ny[{}] = 'N'\nprint(repr(x), repr(y), repr(y[{}]))\n", x, a, if b.contains(':') { return None } else { b }, c), 3 if lv => format!("let x = {}\nx[{}][{}] += [{}]\nprint(repr(x))\n", x, a, b, c), 4 if !c.contains(':') => format!("let x = {}\nlet s = x[{}]\ns[{}][{}] = 1\nprint(repr(x), repr(s))\n", x, a, if b.contains(':') { return None } else { b }, c), _ => return None })
    }, |cx, s| conform_src(cx, s, false, "chained index"));
    cx.explore("dictionary lookups", |ch| {
        let keys = ["nil", "true", "1", "'1'", "(1,)", "[1]", "1i", "rational(1, 1)", "S(1)", "0", "false", "{1}", "range(2)", "print", "[[1]]", "('a', nil)"];
        let (k1, k2, q) = (*ch.of(&keys), *ch.of(&keys), *ch.of(&keys));
        let d = *ch.of(&["", " . default('dd')", " . default(fn() -> [0])", " . default(list)", " . default(memoize(fn() -> ['m']))"]);
        let f = ch.pick(4);
        Some(format!("struct S(a)\nlet d = {{{}: 'one', {}: 'two'}}{}\n{}\nprint(repr(d), len(d))\n", k1, k2, d, match f { 0 => format!("print(d[{}])", q), 1 => format!("d[{}] = 'new'\nprint(d[{}])", q, k1), 2 => format!("d[{}] += ['x']\nprint(d[{}])", q, q), _ => format!("print({} in d, d[{}], {} in d)", q, q, q) }))
    }, |cx, s| conform_src(cx, s, false, "dictionary lookup"));
    cx.explore("slice functions reused", |ch| {
        let b = ["", "0", "1", "-1", "-2", "3", "nil"];
        let (x, y, z) = (*ch.of(&b), *ch.of(&b), *ch.of(&["", "1", "-1", "2", "-2", "0", "nil"]));
        let s = if z.is_empty() && ch.flag() { format!("[{}:{}]", x, y) } else { format!("[{}:{}:{}]", x, y, z) };
        Some(format!("let s = {}\nprint(s('abcd'), s([1, 2, 3]), s(vector(1, 2)), repr(s))\nprint([[1, 2, 3], 'xyz', (4, 5, 6)] . map(s), s == {}, s is function)\nprint(['ab', 'cd'] . map({}) . list, 'é漢😀' . {})\nprint(s(...[[9, 8, 7]]), s(5))\n", s, s, s, s))
    }, |cx, s| conform_src(cx, s, false, "slice function"));
}
