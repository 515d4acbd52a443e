//! C13: strings: all short strings over an alphabet of one, two, three and four byte characters, across the boundary of the
//! inline (7 byte) representation, through every string operation, format directive and numeric conversion.
use super::*;

pub const META: Meta = Meta { id: "C13", run, assumptions: &["strings of up to 9 characters over an alphabet of 1 to 4 byte characters and white space", "format strings of up to 3 directives with widths up to 12 and at the limits"] };

const STRS: &[&str] = &["''", "'a'", "'é'", "'☃'", "'𝄞'", "'ab'", "'é☃'", "'𝄞a'", "'abcdefg'", "'abcdefgh'", "'abcdef☃'", "'ééé'", "'éééx'", "'éééé'", "'☃☃'", "'☃☃a'", "'☃☃☃'", "'𝄞𝄞'", "'abc𝄞'", "'abcd𝄞'", "' a b '", "'\\t\\na '", "'ÀÉ'", "'aB1-Z'", "'ß'", "'İ'", "'\\'q\\''", "'\"'", "'a\\\\b'", "'hello hello hello'", "'\u{a0}x\u{2003}'", "'ﬀ'", "'Σας'", "'e\u{301}'"];

fn run(cx: &mut Cx) {
    // every string over the alphabet, built by the program at run time and literally
    let chars = ["a", "Z", "é", "☃", "𝄞", " "];
    let len = cx.tier.pick(4, 5);
    cx.explore("short strings over an alphabet", |ch| {
        let n = ch.pick(len + 1);
        let s: String = (0..n).map(|_| *ch.of(&chars)).collect();
        let pad = *ch.of(&["", "abc"]);
        let q = *ch.of(&["len(s), s . list, s . reverse, repr(s)", "s . map(ord), s . map(ord) . map(char) . join('') == s", "s[0:1], s[1:], s[-2:], s[::-1], s[:-1]", "to_upper(s), to_lower(s), trim(s)", "s + 'x', 'x' + s, s * 2, s == t, {s: 1}[t], s in [t]", "'%5s|%s|%02s' % [s, s, s]", "s . split(''), s . join('-'), s . enumerate . list", "s < 'a☃', s > 'é', s . set . len, s . sort, [s, t] . set", "s in s, 'é' in s, 'a' in s, '' in s", "s . zip(range(9)), s . map(fn(c) -> c + c) . join(''), s . counter"]);
        Some(format!("let s = '{}{}', t = ['{}', ...'{}'] . join('')\nprint({})\nfor c in s {{ print(c, len(c)) }}\nprint(s[{}])\n", pad, s, pad, s, q, n))
    }, |cx, s| conform_src(cx, s, false, "short strings"));
    cx.explore("functions of two strings", |ch| {
        let (s, t) = (*ch.of(STRS), *ch.of(STRS));
        let q = *ch.of(&["s + t, len(s + t), (s + t) . list . len", "join(s, t), join(s, [t, 1, nil]), join(s, [t])", "s == t, s < t, s >= t, len({s, t})", "s in t, t in s + t, s not in t", "to_upper(s + t), to_lower(s + t), trim(s + t), trim(t + s)", "(s + t) . reverse, (s + t)[1:-1], (s + t)[len(s):] == t", "[s, t] . repr, repr(s + t), str([s, (t, s)]), {s: t}", "(s + t) . ord", "s . find(t), s . index_of(t), s . rindex_of(t)", "zip(s, t), s . enumerate . list", "'%s%%%3s' % (s, t)", "ord(s), ord(t)"]);
        Some(format!("let s = {}, t = {}\nprint({})\n", s, t, q))
    }, |cx, s| conform_src(cx, s, false, "two strings"));
    cx.explore("operators on strings and other values", |ch| {
        let s = *ch.of(STRS);
        let v = *ch.of(&["0", "1", "3", "-1", "nil", "true", "1i", "[1]", "(1, 2)", "rational(1, 2)", "{1}", "print", "S(1)", "{'k': 'v'}", "range(2)", "fn(x) -> x", "S", "heap([2])", "(+ 1)", "[nil, 'x', ['y']]"]);
        let q = *ch.of(&["s + v", "v + s", "s * v", "v * s", "s - v", "s[v]", "s << v", "str(v), repr(v), s + str(v)", "'%s' % v", "s % v", "join(s, v)", "[v, v] . join(s)", "s . join(v)", "char(v)", "ord(v)", "hex(v)", "bin(v)", "len(v)", "to_upper(v)", "trim(v)", "v . split(s)", "s == v, s < v, s > v", "s and v", "-s", "!s", "s is str, v is str", "s . int(v)", "int(v, s)", "rational(s, v)", "rational(v)"]);
        Some(format!("struct S(f)\nlet s = {}, v = {}\nprint({})\n", s, v, q))
    }, |cx, s| conform_src(cx, s, false, "operators"));
    // format strings
    let parts = ["%d", "%s", "%x", "%b", "%5d", "%05d", "%05s", "%12s", "%3x", "%010b", "%04x", "%%", "a", "☃", "%", "%q", "%00d", "%10d", "%1s", "%0d", "%-d", "% d", "%.2f", "%d%"];
    let args = ["0", "1", "-1", "255", "4611686018427387903", "-4611686018427387904", "'x'", "'☃é'", "nil", "true", "[1, 'a']", "1i", "rational(1, 2)", "print"];
    cx.explore("format: one directive", |ch| {
        let p = format!("{}{}{}", ch.of::<&str>(&["", "x", "%%", "☃"]), ch.of::<&str>(&parts), ch.of::<&str>(&["", "y", "%%"]));
        let a = *ch.of(&args);
        let a = ch.of(&["@", "(@,)", "[@]", "(@, 2)", "[]"]).replace('@', a);
        Some(format!("let a = {}\nprint('{}' % a)\n", a, p))
    }, |cx, s| conform_src(cx, s, false, "format"));
    let n = cx.tier.pick(3, 4);
    cx.explore("format: sequences of directives", |ch| {
        let k = ch.pick(n) + 1;
        let p: String = (0..k).map(|_| *ch.of(&parts[..14])).collect();
        let m = ch.pick(n + 1);
        let a: Vec<&str> = (0..m).map(|_| *ch.of(&["7", "'s'", "-300"])).collect();
        let a = if m == 1 && ch.flag() { a[0].to_string() } else { format!("[{}]", a.join(", ")) };
        Some(format!("print('{}' % {})\n", p, a))
    }, |cx, s| conform_src(cx, s, false, "format sequences"));
    cx.explore("format: every width", |ch| {
        let z = *ch.of(&["", "0"]);
        let w = *ch.of(&["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "19", "20", "21", "62", "63", "64", "65", "70", "100", "101", "110"]);
        let d = *ch.of(&["d", "x", "b", "s"]);
        let a = *ch.of(&["0", "1", "-1", "9", "10", "99", "-99", "12345", "4611686018427387903", "-4611686018427387904", "true", "'abc'", "'é☃𝄞'", "(1, 2)", "''"]);
        Some(format!("let a = '[%{}{}{}]' % [{}]\nprint(a, len(a))\n", z, w, d, a))
    }, |cx, s| conform_src(cx, s, false, "format widths"));
    cx.each("format: widths beyond all limits", 4 * 6, |cx, i| {
        let w = ["9999999999", "99999999999999999999", "18446744073709551615", "18446744073709551616", "4294967296000", "340282366920938463463374607431768211456"][i as usize / 4];
        conform_text(cx, format!("print('%{}{}' % 1)\n", w, ["d", "x", "b", "s"][i as usize % 4]), false, &Outcome { out: String::new(), end: Err(Er::Any) }, "a width beyond all limits is an error");
    });
    // numbers in text
    let digits = ["", "0", "1", "-", "+", "9", "f", "F", " ", "_", "x", "10", "4611686018427387903", "٣", "/", "."];
    let len = cx.tier.pick(3, 4);
    cx.explore("parsing numbers", |ch| {
        let n = ch.pick(len) + 1;
        let s: String = (0..n).map(|_| *ch.of(&digits)).collect();
        let q = *ch.of(&["int(s)", "int(s, 'default')", "hex(s)", "bin(s)", "rational(s)", "s . int(nil)"]);
        Some(format!("let s = '{}'\nprint(repr({}))\n", s, q))
    }, |cx, s| conform_src(cx, s, false, "parsing numbers"));
    cx.explore("numbers at the limits of the representation", |ch| {
        let s = *ch.of(&["4611686018427387903", "4611686018427387904", "-4611686018427387904", "-4611686018427387905", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "3fffffffffffffff", "4000000000000000", "-4000000000000000", "-4000000000000001", "7fffffffffffffff", "8000000000000000", "ffffffffffffffff", "10000000000000000", "0000000000000000000000000000000000001", "-0", "+0", "+5", "11111111111111111111111111111111111111111111111111111111111111", "111111111111111111111111111111111111111111111111111111111111111", "-100000000000000000000000000000000000000000000000000000000000000", "-100000000000000000000000000000000000000000000000000000000000001", "FF", "fF", "1e5", "1/2", "2/4", "-6/3", "1/0", "0/5", "1/-2", "1/2/3", "/2", "1/", "1 / 2", "123456789012345678901234567890/7", "0x1f", "#ff", "0b1"]);
        let q = *ch.of(&["int(s)", "int(s, 'default')", "hex(s)", "bin(s)", "rational(s)", "int(rational(s))", "hex(hex(s))", "bin(bin(s))", "hex(s) . hex == s", "int(s) + 1"]);
        Some(format!("let s = '{}'\nprint(repr({}))\n", s, q))
    }, |cx, s| conform_src(cx, s, false, "limits"));
    cx.explore("integers to text and back", |ch| {
        let e = *ch.of(&["0", "1", "-1", "15", "16", "255", "-255", "4611686018427387903", "-4611686018427387904", "-4611686018427387903", "2305843009213693952", "1 << 40", "-(1 << 61)"]);
        let d = *ch.of(&["0", "1", "-1", "7"]);
        Some(format!("let n = {} + {}\nprint(hex(n), bin(n), str(n), repr(n), int(str(n)) == n, '%d %x %b' % [n, n, n], rational(str(n)) == n)\nif n >= 0 {{ print(hex(hex(n)) == n, bin(bin(n)) == n, len(bin(n)), count_ones(n) == bin(n) . filter(fn(c) -> c == '1') . len) }}\n", e, d))
    }, |cx, s| conform_src(cx, s, false, "integers"));
    // character codes: all of the basic plane and the boundaries of the others
    let step = cx.tier.pick(64, 16);
    cx.each("character codes", 0x110000 / 64 + 6, |cx, i| {
        let lo = (i * 64) as i64;
        if i % step.min(8) != 0 && lo > 0x3000 && !(0xd780..0xe080).contains(&lo) && lo < 0x10ff00 { return; }
        let model = |c: i64| u32::try_from(c).ok().and_then(char::from_u32).is_some();
        let (a, b): (Vec<i64>, Vec<i64>) = (lo.max(1)..lo + 64).partition(|c| model(*c));
        if !a.is_empty() {
            let out = a.iter().map(|c| { let c = char::from_u32(*c as u32).unwrap(); format!("{} {} {} true\n", c, c as u32, 1) }).collect::<String>();
            conform_text(cx, format!("for i in {:?} {{\n let c = char(i)\n print(c, ord(c), len(c), c == [c] . join('')) }}\n", a), false, &Outcome { out, end: Ok(()) }, "character codes");
        }
        for c in b.iter().filter(|c| lo < 0xd840 || **c == lo) { conform_text(cx, format!("print(char({}))\n", c), false, &Outcome { out: String::new(), end: Err(Er::Msg(format!("ValueError: Cannot convert int {} to a character", c))) }, "invalid character codes"); }
    });
    cx.each("character codes out of range", 40, |cx, i| {
        let c = [0x110000i64, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000061, 0x200000041, -1, -97, i64::MIN >> 1, i64::MAX >> 1, 0x10ffff + 1, 0xd800, 0xdfff, 0xdbff, 0xdc00, (1 << 40) + 97, (1 << 61) + 65, -0xffffffff + 96, -(1 << 32) + 97][i as usize / 2];
        let f = if i % 2 == 0 { format!("char({})", c) } else { format!("[{}] . map(char)", c) };
        conform_text(cx, format!("print({})\n", f), false, &Outcome { out: String::new(), end: Err(Er::Msg(format!("ValueError: Cannot convert int {} to a character", c))) }, "character codes out of range");
    });
    // case conversion and trimming of whole blocks of Unicode
    cx.each("case conversion and white space", 0x30000 / 32, |cx, i| {
        let cs: Vec<char> = (i as u32 * 32..i as u32 * 32 + 32).filter_map(char::from_u32).filter(|c| *c > ' ' && *c != '\'' && *c != '\\' && *c != '\r').collect();
        if cs.is_empty() { return; }
        let mut out = String::new();
        for c in &cs {
            let s = format!("{}x{}", c, c);
            out += &format!("{} {} {} {}\n", s.to_uppercase(), s.to_lowercase(), s.trim().chars().count(), c.is_whitespace());
        }
        let l: String = cs.iter().collect();
        conform_text(cx, format!("for c in '{}' {{\n let s = c + 'x' + c\n print(to_upper(s), to_lower(s), len(trim(s)), trim(c) == '') }}\n", l), false, &Outcome { out, end: Ok(()) }, "case conversion");
    });
    // escapes and multi line literals
    let esc = ["a", "\\n", "\\t", "\\r", "\\\\", "\\'", "\\\"", "é", "\n", "☃", "//", " "];
    cx.explore("string literals", |ch| {
        let q = *ch.of(&["'", "\""]);
        let n = ch.pick(4);
        let s: String = (0..n).map(|_| *ch.of(&esc)).collect();
        let s = if q == "\"" && ch.flag() { format!("{}'", s) } else { s };
        Some(format!("let s = {}{}{}\nprint(s, len(s))\nprint(repr(s), [s], s . map(ord))\n", q, s, q))
    }, |cx, s| conform_src(cx, s, false, "literals"));
}
