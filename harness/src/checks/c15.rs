//! C15: the representation of every value over a bounded alphabet of leaves and containers is the documented text (computed by
//! the reference evaluator), and evaluating it gives the value back.
use super::*;
use crate::engine::Ch;

pub const META: Meta = Meta { id: "C15", run, assumptions: &["values of nesting depth up to 2 (3) with up to 3 elements per level", "vectors of fewer than two elements, the empty dictionary and strings that contain a single quote are explored in a space of their own: the representation of those is fixed by existing tests and does not evaluate back (known findings)"] };

const LEAF: &[&str] = &["nil", "true", "false", "0", "-1", "4611686018427387903", "-4611686018427387903 - 1", "1i", "-2 - 3i", "4i - 5", "''", "'a b'", "'\"\\\\n'", "'é\\n\\t☃'", "'true'", "'1'"];
const FEW: &[&str] = &["-1", "2i - 3", "'x\\n'", "nil", "true"];
/// Can be elements of sets and keys
fn value(ch: &mut Ch, d: usize, leaf: &[&str], few: &[&str], n: usize) -> String {
    let k = if d == 0 { 0 } else { ch.pick(5) };
    if k == 0 { return ch.of::<&str>(leaf).to_string(); }
    let m = match k { 4 if d > 1 => 0, 2 => 2 + ch.pick(n - 1), 4 => 1 + ch.pick(2), _ => ch.pick(n + 1) };
    let mut el = |ch: &mut Ch, i: usize| value(ch, d - 1, if i == 0 { leaf } else { few }, few, if i == 0 { n } else { n.min(2) });
    let v: Vec<String> = (0..m).map(|i| el(ch, i)).collect();
    match k {
        1 => format!("[{}]", v.join(", ")),
        2 => format!("({})", v.join(", ")),
        3 => if m == 0 { "set()".into() } else { format!("{{{}}}", v.join(", ")) },
        _ if d > 1 => { let second = ch.flag(); let (a, b) = (value(ch, d - 1, few, &few[..1], 2), value(ch, d - 1, leaf, &few[..1], 2)); format!("{{{}: {}{}}}", a, b, if second { ", 'k': -7" } else { "" }) }
        _ => { let w: Vec<String> = (0..m).map(|i| el(ch, i)).collect(); format!("{{{}}}", v.iter().zip(&w).map(|(a, b)| format!("{}: {}", a, b)).collect::<Vec<_>>().join(", ")) }
    }
}

/// The text is the one the reference predicts, and the value comes back
fn round(cx: &mut Cx, v: &str) { back(cx, format!("let v = {}\nlet r = repr(v)\nprint(r)\nprint(str(v))\nlet w = eval(r)\nprint(w == v, typeof(w) == typeof(v), repr(w) == r, v == w)\n", v)); }

fn back(cx: &mut Cx, src: String) {
    let m = predict(&src);
    let i = Input::Run { src: src.clone(), opt: false, stdin: String::new() };
    let o = match cx.exec(&i) { Some(o) => o, None => return };
    if !cx.fresh(src.as_bytes()) { return; }
    cx.transitions += 1;
    cx.validated += 1;
    // values that can not be constructed (self containing keys and the like) are not values
    if m.end != Ok(()) && m.end != Err(Er::Skip) && disagree(&m, &o).is_none() && !m.out.contains('\n') { cx.stat("not a value", 1); return; }
    if !o.ok() || o.out.lines().last() != Some("true true true true") { return cx.fail(&i, "evaluating the representation", "an equal value of the same type (last line: true true true true)".into(), &o); }
    // the reference agrees on everything printed before
    if m.end != Err(Er::Skip) { if let Some(e) = disagree(&m, &o) { cx.fail(&i, "textual form", e, &o); } } else { cx.stat("model declined to predict the text", 1); }
    cx.sample(format!("{} => {}", src, o.out));
}

fn run(cx: &mut Cx) {
    let t = cx.thorough();
    cx.explore("values of nesting depth 1", |ch| Some(value(ch, 1, LEAF, LEAF, 3)), |cx, v| round(cx, &v));
    cx.explore("values of nesting depth 2", |ch| Some(value(ch, 2, if t { LEAF } else { &LEAF[6..14] }, &FEW[..2], 2)), |cx, v| round(cx, &v));
    if t { cx.explore("values of nesting depth 3", |ch| Some(value(ch, 3, &FEW[1..3], &FEW[1..2], 2)), |cx, v| round(cx, &v)); }

    // numbers
    let ints = ["0", "1", "-1", "7", "-12", "4611686018427387903", "-4611686018427387903 - 1", "-4611686018427387903", "1 << 31", "-(1 << 32)", "1 << 61"];
    cx.explore("integers and complex numbers in every container", |ch| {
        let (a, b) = (*ch.of(&ints), *ch.of(&ints));
        let c = *ch.of(&["@", "[@]", "(@, @)", "{@}", "{@: @}", "[[@, -1], (@, 'x')]"]);
        Some(c.replace('@', &format!("(({}) + ({}) * 1i)", a, b)))
    }, |cx, v| round(cx, &v));
    cx.each("small integers and powers of two", 700 + 61 * 6, |cx, i| {
        let v = if i < 700 { i as i64 - 350 } else { let k = (i - 700) as i64; ((1i64 << (k / 6)) + k % 3 - 1) * if k % 6 < 3 { 1 } else { -1 } };
        round(cx, &v.to_string());
    });

    // strings built at run time, over all the characters that mean something in a literal
    let chars: &[u32] = &[92, 34, 110, 10, 9, 13, 233, 0x2603, 32, 36, 47, 35, 48, 123];
    let n = cx.tier.pick(3, 4);
    cx.explore("strings", |ch| {
        let k = ch.pick(n + 1);
        let s: Vec<u32> = (0..k).map(|_| *ch.of(chars)).collect();
        let c = if k <= 2 { *ch.of(&["@", "[@]", "(@, [@, -1])", "{@}", "{@: 1}", "{1: @}"]) } else { "@" };
        Some((s, c))
    }, |cx, (s, c)| back(cx, format!("let s = {:?} . map(char) . join('')\nlet v = {}\nlet r = repr(v)\nprint(r)\nprint(str(v))\nlet w = eval(r)\nprint(w == v, typeof(w) == typeof(v), repr(w) == r, v == w)\n", s, c.replace('@', "s"))));
    cx.each("strings of one character", cx.tier.pick(0x3000, 0x11000), |cx, i| {
        if i == 39 || (0xd800..0xe000).contains(&i) { return; }
        back(cx, format!("let v = char({0}) + 'a' + char({0})\nlet r = repr(v)\nlet w = eval(r)\nprint(w == v, typeof(w) == typeof(v), repr(w) == r, v == w)\n", i));
    });
    cx.each("long strings and collections", 24, |cx, i| {
        let k = [1, 6, 7, 8, 255, 256, 300, 1000][i as usize % 8];
        round(cx, &["'ab' * %", "[1, 'x', nil] * %", "range(%) . map(fn(x) -> (x, -x)) . dict"][i as usize / 8].replace('%', &k.to_string()));
    });
    cx.each("values nested deeply", 40, |cx, i| {
        let d = i / 4 * 3 + 1;
        round(cx, &["let$[$]", "let$($, 1)", "let${1: $}", "let${$}"][i as usize % 4].strip_prefix("let$").map(|t| { let mut s = String::from("-7"); for _ in 0..d { s = t.replace('$', &s); } s }).unwrap());
    });
    // representations that existing tests fix
    let odd = ["vector()", "(1,)", "dict()", "'\\''", "'a\\'b'", "[vector()]", "[(1,)]", "[dict()]", "['\\'']"];
    cx.each("values whose representation is fixed by existing tests", odd.len() as u64, |cx, i| round(cx, odd[i as usize]));

    // textual forms of every kind of value, in every position
    let vals = ["nil", "true", "1", "'a'", "'\\''", "'a\\\\'", "1i", "rational(1, 2)", "rational(3)", "[]", "['a', \"b\"]", "(1,)", "vector()", "('a', nil)", "{}", "{'a'}", "dict()", "{'a': 'b'}", "heap([])", "heap(['b', 'a'])", "range(3)", "range(0)", "range(1, 9, 3)", "range(9, 1, -2)", "enumerate(['a'])", "S(1, 'x')", "S", "S(1, S(2, ['y']))", "f", "fn() -> 1", "fn(a, b) -> a", "fn(*a) -> a", "fn(a, b?, c=1) -> a", "f(1)", "print", "map(f)", "map", "(+)", "(+ 1)", "(-)", "(!)", "(->x)", "S(1, 2)->m", "S->m", "int", "insert(1)", "memo", "[1:]", "[:'a' . len]", "M", "M->g"];
    let ctx = ["print(@)", "print(repr(@))", "print(str(@), [@])", "print([@], (@, @), [[@]])", "print({1: @})", "print('%s' % [@], '' + 'x' + str(@))", "print([@, @] . join('-'))", "print(S(@, 1))", "print(repr([@]), repr(S(@, [@])))", "print(heap([(1, @)]))", "print([@] . enumerate)", "print(int(@))", "print([@] . map(repr), [@] . map(str))", "print(f(@))"];
    cx.explore("textual form of every kind of value", |ch| {
        let (v, c) = (*ch.of(&vals), *ch.of(&ctx));
        Some(format!("struct S(x, y) {{ fn m(self) {{ return 1 }} }}\nmodule M {{ fn g() {{ return 1 }} }}\nfn f(a, b) {{ return (a, b) }}\n@memoize fn memo(a) {{ return a }}\nlet v = {}\n{}\n", v, c.replace('@', "v")))
    }, |cx, s| conform_src(cx, s, false, "textual form"));

    // self containing values terminate with a placeholder
    let links = ["push(@, a)", "push(@, b)", "push(@, [a])", "push((@, 1), a)", "push((1, [@]), b)", "d['k'] = @", "d['l'] = [@]", "push(d, @)", "s->x = @", "s->y = [@, 5]", "push(@, a); push(@, b)", "v[0] = @", "v[1] = (1, @)", "push(heap([(1, @)]), a)", "b = [@, @]", "d['z'] = {1: @}"];
    let tgt = ["a", "b", "d", "s", "v", "[a, b]"];
    let n = cx.tier.pick(2, 3);
    cx.explore("self containing values", |ch| {
        let k = 1 + ch.pick(n);
        let l: Vec<String> = (0..k).map(|_| ch.of(&links[..if k == 3 { 10 } else { links.len() }]).replace('@', tgt[ch.pick(if k == 3 { 4 } else { 6 })])).collect();
        Some(format!("struct S(x, y)\nlet a = [1], b = ['q'], d = {{'k': 2}}, s = S(3, 4), v = [5, 6] . vector\n{}\nprint(a); print(b); print(d); print(s); print(v)\nprint(repr([a, a, b, d, s, v]), str((a, s)))\n", l.join("\n")))
    }, |cx, s| conform_src(cx, s, false, "self containing values"));
}
