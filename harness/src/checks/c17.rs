//! C17: totality of the library. Every function and operator, with every number of arguments up to four, and every combination
//! of values of all types and at the boundaries: the call yields a value or a located error report, and the interpreter goes on
//! working. Callbacks that change the collection being operated on are enumerated as well.
use super::*;
use crate::model::natives;

pub const META: Meta = Meta { id: "C17", run, assumptions: &["arguments are taken from the listed values; write_text is called only with a path inside of a scratch directory (C22)", "no iterables of more than 2^16 elements are consumed"] };

const PRE: &str = "let l = [3, 1, 2], d = {1: 'a', 'k': nil}, s = {'x', 4}, h = heap([5, 2, 9]), c = [1]\nc . push(c)\nstruct S(x, y) { fn m(self, z) { return z } }\nmodule M { fn g(a) { return a } }\nlet o = S(1, 'q')\n@memoize\nfn memo(a, b?) { return a }\n";
const POST: &str = "let t = typeof(r), n = len(repr(r))\nif t == list or t == set or t == dict or t == str or t == vector { n = len(r) }\nprint(len(l), len(d), len(s), len(h), len(c), o->x, 'end')\nprint(l == l, repr([l, d, s, h, o]) . len >= 0, [1, 2] . map(+ 1) . sum)\n";

const VALS: &[&str] = &["nil", "true", "0", "1", "-1", "3", "4611686018427387903", "-4611686018427387904", "2i", "(1 - 3i)", "rational(1, 3)", "rational(-7)", "''", "'ab'", "'é%1'", "'(a+)'", "'%99999999999999999999d'", "'%s'", "'12'", "[]", "l", "[[1, 2], [3, 4]]", "['b', 'a']", "(1, 2)", "vector()", "({1, 2}, [3])", "s", "set()", "d", "dict()", "h", "heap([])", "range(3)", "range(3, 0, -1)", "range(0)", "enumerate(l)", "fn(x) -> x", "fn(a, b) -> a", "fn() -> 1", "fn(*a) -> a", "len", "(+)", "(< 2)", "map(int)", "push", "S", "o", "o->m", "M", "(->x)", "c", "memo", "[1:]", "[0]", "print", "int", "iterable", "sort"];
const FEW: &[&str] = &["nil", "0", "-1", "4611686018427387903", "2i", "''", "'ab'", "'(a'", "l", "(1, 2)", "s", "d", "h", "range(3)", "fn(x) -> x", "fn(a, b) -> a", "len", "o", "S", "c"];
const LEAST: &[&str] = &["nil", "-1", "'ab'", "l", "d", "(+)", "o", "c"];

/// A result, or a well formed error report
pub fn total(cx: &mut Cx, src: String, note: &str) {
    let i = Input::Run { src, opt: false, stdin: "line\nrest".into() };
    let o = match cx.exec(&i) { Some(o) => o, None => return };
    let src = match &i { Input::Run { src, .. } => src, _ => return };
    if !cx.fresh(src.as_bytes()) { return; }
    cx.transitions += 1;
    cx.validated += 1;
    match o.end {
        End::Exit if src.contains("exit") => cx.stat("calls that exit", 1),
        End::Done | End::Exit => { cx.stat("calls that yield a value", 1); if !o.out.contains("end\ntrue true 5\n") { cx.fail(&i, note, "the rest of the program runs as well".into(), &o); } }
        End::Compile => { cx.stat("calls that are rejected when compiling", 1); if let Err(e) = c16::diagnostics(&o.err, src, "<t>") { cx.fail(&i, note, format!("well formed diagnostics ({})", e), &o); } }
        End::Error => {
            cx.stat("calls that raise an error", 1);
            match c16::diagnostics(&o.err, src, "<t>") {
                Err(e) => cx.fail(&i, note, format!("a located error report ({})", e), &o),
                Ok(d) => if d.len() != 1 { cx.fail(&i, note, "one error report".into(), &o) } else { cx.sample(format!("{} => {}", src, o.first())) },
            }
        }
        End::Panic => cx.fail(&i, note, "a value or an error".into(), &o),
    }
}

fn run(cx: &mut Cx) {
    let t = cx.thorough();
    let fns: Vec<&str> = natives::names().iter().copied().filter(|n| *n != "write_text").collect();
    let call = |cx: &mut Cx, f: &str, a: &[&str]| total(cx, format!("{}let r = {}({})\n{}", PRE, f, a.join(", "), POST), "library call");
    cx.explore("calls of up to two arguments", |ch| { let f = *ch.of(&fns); let k = ch.pick(3); Some((f, (0..k).map(|_| *ch.of(VALS)).collect::<Vec<_>>())) }, |cx, (f, a)| call(cx, f, &a));
    let mid: Vec<&str> = if t { VALS.iter().copied().collect() } else { FEW.iter().copied().collect() };
    cx.explore("calls of three arguments", |ch| { let f = *ch.of(&fns); Some((f, (0..3).map(|_| *ch.of(&mid)).collect::<Vec<_>>())) }, |cx, (f, a)| call(cx, f, &a));
    let least: Vec<&str> = if t { FEW[..13].to_vec() } else { LEAST.to_vec() };
    cx.explore("calls of four arguments", |ch| { let f = *ch.of(&fns); Some((f, (0..4).map(|_| *ch.of(&least)).collect::<Vec<_>>())) }, |cx, (f, a)| call(cx, f, &a));
    let odd = ["print", "(+)", "len", "map", "min", "S", "M", "o->m", "memo", "fn(a, b?) -> a", "fn(a, *b) -> b", "(->x)", "[0]", "[1:]", "nil", "3", "'a'", "l", "map(len)", "reduce(+)", "insert(1)", "replace('a')", "c", "int", "function"];
    cx.explore("calls of values, and of partial functions", |ch| { let f = *ch.of(&odd); let k = ch.pick(4); Some((f, (0..k).map(|_| *ch.of(if k == 3 { FEW } else { VALS })).collect::<Vec<_>>())) }, |cx, (f, a)| call(cx, f, &a));
    cx.explore("partial calls continued", |ch| { let f = *ch.of(&fns); let g = vec![*ch.of(FEW)]; let k = 1 + ch.pick(2); let v: &[&str] = if k == 1 { VALS } else { FEW }; Some((f, g[0], (0..k).map(|_| *ch.of(v)).collect::<Vec<_>>())) }, |cx, (f, g, a)| total(cx, format!("{}let r = {}({})({})\n{}", PRE, f, g, a.join(", "), POST), "partial call"));

    let ops = ["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "in", "not in", "is", "is not", "and", "or", "max", "min", "."];
    cx.explore("operators", |ch| Some((*ch.of(VALS), *ch.of(&ops), *ch.of(VALS))), |cx, (a, o, b)| { total(cx, format!("{}let r = {} {} {}\n{}", PRE, a, o, b, POST), "operator"); total(cx, format!("{}let p = {}, q = {}\nlet r = p {} q\n{}", PRE, a, b, o, POST), "operator"); });
    cx.explore("unary operators, indices, slices, fields, assignments", |ch| {
        let e = *ch.of(&["- @", "! @", "not @", "@ [ $ ]", "@ [ $ : ]", "@ [ : $ ]", "@ [ :: $ ]", "@ [ $ : $ : -1 ]", "@ -> x", "@ -> m", "@ ( $ )", "@ ( ... $ )", "[ ... @ ]", "{ ... @ }", "{ ... @, 1: 2 }", "{ @ : $ }", "{ @ , $ }", "if @ then $ else 1", "[ @ : $ ] ( l )", "( @ ) . ( $ )", "eval ( repr ( @ ) )", "'%d %s %x' % ( @, $, 1 )"]);
        let a = *ch.of(VALS);
        let b = if e.contains('$') { *ch.of(VALS) } else { "" };
        Some(format!("{}let p = {}, q = {}\nlet r = {}\n{}", PRE, a, if b.is_empty() { "nil" } else { b }, e.replace('@', "p").replace('$', "q"), POST))
    }, |cx, s| total(cx, s, "expression"));
    cx.explore("assignments to parts of a value", |ch| {
        let e = *ch.of(&["p[q] = w", "p[q] += w", "p->x = w", "p->x .= w", "p->y *= q", "p[0], q = w", "let a, b = p; r = a", "let (a, *b), _ = p; r = b", "for a, b in p { r = a }", "for a in p { r = a; p . push(a); num += 1; if num > 20 { break } }", "p += q; p -= w", "p max= q", "p .= q", "while p[0] { p = q; break }", "assert p : q", "assert p == q : w"]);
        Some(format!("{}let p = {}, q = {}, w = {}, r, num = 0\n{}\n{}", PRE, ch.of(VALS), ch.of(if t { VALS } else { FEW }), ch.of(LEAST), e, POST))
    }, |cx, s| total(cx, s, "assignment"));

    // callbacks that change what is operated on
    let acts = ["l . pop", "l . clear", "if len(l) < 30 { l . push(7) }", "if len(l) < 30 { l . push_front(l[0]) }", "l[0] = l", "l . sort", "if len(d) < 30 { d[len(d) + 10] = 1 }", "d . clear", "d . pop", "d . remove(1)", "s . clear", "if len(s) < 30 { s . push(len(s) + 50) }", "s . pop", "h . clear", "h . pop", "if len(h) < 30 { h . push(1) }", "l = []", "o->x = l", "l . insert(0, 5)", "1 / 0", "exit", "return 'x'", "return nil", "return l", "for e in l { l = [e] }", "default(d, 4)", "calls += 100"];
    let outer = ["map(f)", "filter(f)", "flat_map(f)", "reduce(g)", "sort_by(f)", "sort_by(g)", "min_by(f)", "min_by(g)", "max_by(f)", "max_by(g)", "group_by(f)", "any(f)", "all(f)", "find(f)", "rfind(f)", "index_of(f)", "rindex_of(f)", "memoize(f)", "map(map(f))", "default(f)", "default(k)", "insert(0, f(1))", "push(f(1))", "remove(f(0))", "merge(f)", "counter . map(f)", "permutations(2) . map(f)", "combinations(2) . map(f)", "reverse . map(f)", "enumerate . map(f)", "zip(l) . map(f)", "replace('a', f)", "split(f)", "join(f)", "union(map(f, l))", "difference(map(f, l))", "intersect(map(f, l))", "[f(0):]", "[f(0)]", "list . sort_by(g)", "set . map(f)", "range(1) . f"];
    let recv = ["l", "d", "s", "h", "o", "c", "(l, l)", "[l, d]", "l . vector", "keys(d)", "values(d)", "enumerate(l)", "'abca'", "range(4)", "l[::-1]"];
    cx.explore("callbacks that change the collection that is operated on", |ch| {
        let (a, e, r) = (*ch.of(&acts), *ch.of(&outer), *ch.of(&recv));
        Some(format!("{}let calls = 0\nfn f(x) {{\n calls += 1\n if calls > 60 {{ return 0 }}\n {}\n return x }}\nfn g(x, y) {{\n calls += 1\n if calls > 60 {{ return 0 }}\n {}\n return x - y }}\nfn k() {{ {}\n return 3 }}\nlet r = {} . {}\nif r is list {{ for e in r {{ nil }} }}\n{}", PRE, a, a, a, r, e, POST))
    }, |cx, s| total(cx, s, "callback"));
    cx.explore("loops over a collection that is changed", |ch| {
        let (a, b, r) = (*ch.of(&acts), *ch.of(&acts), *ch.of(&recv));
        let e = *ch.of(&["for x in @ { calls += 1; if calls > 60 { break }; $ }", "for x in @ { calls += 1; if calls > 60 { break }; for y in @ { $ ; & ; calls += 1; if calls > 60 { break } } }", "let v = [ x ] + [y(0), y(1)]", "l[y(0)] = y(1)", "d[y(1)] += y(2)", "[ ...l, y(1), ...l ]", "{ ...l, y(1), ...s }", "l . push(y(l))", "let p, *q = [y(1), y(2), @]", "print(y(1), @, y(2))", "l[y(0):y(1)] . print"]);
        if !e.contains('&') && b != acts[0] { return None; }
        let ok = |s: &str| !s.contains("return");
        if !e.contains("y(") && !(ok(a) && ok(b)) { return None; }
        let e = e.replace('@', r).replace('$', a).replace('&', b);
        Some(format!("{}let calls = 0, x = 1\nfn y(z) {{ {}\n return z }}\n{}\nlet r = 1\n{}", PRE, a, e, POST))
    }, |cx, s| total(cx, s, "loop"));

    // collections which contain each other, and themselves
    let pool = ["l", "d", "s", "h", "v", "o"];
    let acts = ["@ . push($)", "@ . push([$])", "@ . push({})", "@ . push(heap([]))", "@ . push_front($)", "@ . insert(0, $)", "@ . insert($, 1)", "@[$] = 1", "@[[$]] = @", "@[0] = $", "@[1] = [$]", "@->x = $", "@ . remove($)", "@ . remove([$])", "@ . pop", "@ . union([$])", "@ . union($)", "@ . intersect([$])", "@ . difference($)", "@ . default($); @[[$]]", "@ = copy($)", "@ == $", "@ < $", "max(@, $)", "sort([@, $, @])", "sort(@)", "r = repr(@)", "str({@, $})", "{@: $}[@]", "$ in @", "counter([@, $])", "index_of($, @)", "@ . min", "list(@) . set", "set(@) & set($)", "@ += [$]", "@ |= {$}", "memoize(fn(x) -> x)(@)", "heap(@) . pop", "[@, $] . group_by(fn(x) -> x)", "eval(repr(@))", "@ . list . permutations(2)", "zip(@, $)", "@ ** 2", "@ . flat_map(list)", "for x in @ { $ . pop }", "@ . sort_by(fn(a) { $ . pop; a })"];
    cx.explore("collections that contain each other", |ch| {
        let mut v = vec![];
        let n = if t { 3 } else { 2 };
        for k in 0..n {
            let a = *ch.of(if k + 1 < n { &acts[..20] } else { &acts[..] });
            let x = *ch.of(&pool);
            let y = if a.contains('$') { *ch.of(&pool) } else { "" };
            // only what collections do to each other
            if k + 1 < n && (x == "v" || x == "o") != (a.contains("[0]") || a.contains("->")) { return None; }
            if t && k == 1 && y != "" && y != x && v.len() == 1 && !(&v[0] as &String).contains(y) { return None; }
            v.push(a.replace('@', x).replace('$', y));
        }
        Some(format!("{}let v = (1, [2]), r\n{}\n{}", PRE, v.join("\n"), POST))
    }, |cx, s| total(cx, s, "collections that contain each other"));

    // sizes that can not be had
    let big = ["4611686018427387903", "4611686018427387902", "-4611686018427387904", "2305843009213693952", "1 << 40", "1 << 33", "1 << 32", "(1 << 31) - 1", "1 << 31", "-1", "0", "63", "64", "65", "62"];
    cx.explore("enormous sizes", |ch| {
        let e = *ch.of(&["'ab' * @", "@ * 'ab'", "[1, 2] * @", "[] * @", "'' * @", "l[@]", "l[@:]", "l[:@:$]", "'abc'[@:$]", "range(@)", "range(@, $)", "range(0, @, $)", "range(@, $, -1)", "range(@)[$]", "range(@, $)[-1]", "$ in range(@)", "len(range(@, $))", "len(range(0, @, $))", "permutations(@, l)", "combinations(@, l)", "permutations(@, range(0))", "2 ** @", "@ ** $", "1 << @", "1 >> @", "@ << $", "@ >> $", "@ / $", "@ % $", "@ * $", "@ - $", "-(@)", "abs(@)", "sqrt(@)", "gcd(@, $)", "lcm(@, $)", "hex(@)", "bin(@)", "char(@)", "count_ones(@)", "rational(@, $)", "rational(@, $) + rational($, @)", "rational(3) % rational(@)", "(@ * 1i) * $", "(@ * 1i) / ($ * 1i + 1)", "insert(l, @, 1)", "remove(l, @)", "l[@] = $", "'%d %x %b' % [@, @, $]", "'%05d' % @", "sum([@, $])", "int(str(@) + '0')", "int('99999999999999999999')", "eval(str(@) + '9')", "(@ * 1i) ** 2", "min(@, $)", "[@, $] . sort", "@ == $", "str(@) . int == @", "range(@)[:$]", "range(10)[@:$]", "range(@, $) . [::-1] . repr . len", "range(0, 10, @) . list", "enumerate(range(@))", "rational(1) ** @", "rational(0) ** @", "rational(-1, 1) ** @", "rational(7) ** @", "rational(1, 3) ** @", "rational(2) ** @", "rational(1, 2) << @", "(1 + 1i) ** @", "nil ** @", "true ** @", "range(@) . map(fn(x) -> 1 / 0)", "range(@) . filter(fn(x) -> 1 / 0)", "range(@) . flat_map(fn(x) -> 1 / 0)", "range(@) . group_by(fn(x) -> 1 / 0)", "range(@) . reduce(fn(x, y) -> 1 / 0)", "range(@) . any(fn(x) -> 1 / 0)", "range(@) . find(fn(x) -> 1 / 0)", "range(@) . index_of(fn(x) -> x > 5)", "zip(range(@), 'ab')", "zip('ab', range(@), range($))", "group_by(@, 'abc')", "enumerate(range(@)) . any(fn((i, x)) -> i > 3)", "range(@) . [:5] . list"]);
        let (a, b) = (*ch.of(&big), if e.contains('$') { *ch.of(&big) } else { "0" });
        // do not really make a large value
        if e.starts_with("rational(") && e.contains(") ** ") && !e.contains("(0)") && !e.contains("1)") && a.contains("<< ") { return None; }
        if (e.contains(" * @") && (e.starts_with('\'') || e.starts_with('[')) || e.starts_with("@ * '")) && (a.starts_with("(1 << 31") || a == "1 << 31") && !e.contains("''") && !e.starts_with("[]") { return None; }
        Some(format!("{}let a = {}, b = {}\nlet r = {}\n{}", PRE, a, b, e.replace('@', "a").replace('$', "b"), POST))
    }, |cx, s| total(cx, s, "enormous size"));
}
