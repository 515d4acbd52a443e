//! C01: numeric operators and functions
use super::*;

pub const META: Meta = Meta { id: "C01", run, assumptions: &[
    "operands are drawn from a fixed list of about 60 values that includes every boundary of the 63-bit range, small integers, booleans, nil, complex numbers, rationals and non-numeric values",
] };

pub const INTS: &[&str] = &["0", "1", "-1", "2", "-2", "3", "-3", "5", "7", "-8", "10", "31", "-31", "32", "61", "62", "63", "64", "-62", "-63", "-64", "65", "-65", "100", "255", "256",
    "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "3037000499", "3037000500", "1152921504606846976", "2305843009213693951", "2305843009213693952", "-2305843009213693952", "-2305843009213693953",
    "4611686018427387902", "4611686018427387903", "(-4611686018427387902)", "(-4611686018427387903)", "(-4611686018427387903 - 1)"];
pub const OTHER: &[&str] = &["nil", "true", "false", "1i", "-1i", "2 + 3i", "-7 + 2i", "3 - 4i", "1000000007 + 3037000500i", "4611686018427387903i", "9 + 9223372036854775807i - 9223372036854775800i",
    "rational(1)", "rational(0)", "rational(1, 2)", "rational(-1, 2)", "rational(7, 3)", "rational(-7, 3)", "rational(4611686018427387903, 2)", "rational(10, 4)", "rational(3) ** 50", "rational(1, 3) ** 41", "rational('123456789012345678901234567890')"];
pub const NONNUM: &[&str] = &["'a'", "'7'", "''", "[1]", "[]", "(2, 3)", "{1}", "{1: 2}", "range(3)", "print", "(fn(x) -> x)", "vector()"];
pub const BIN: &[&str] = &["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!="];

fn run(cx: &mut Cx) {
    let ints: Vec<&str> = INTS.to_vec();
    let mut nums = ints.clone();
    nums.extend(OTHER);
    let mut all = nums.clone();
    all.extend(NONNUM);
    // huge exponents and shifts of exact rationals are bounded by memory, not by a documented value
    let seq = |a: &str| a.starts_with('\'') && a != "''" || a == "[1]";
    let huge = |a: &str| a == "2147483647";
    let too_big = |a: &str, op: &str, b: &str| (op == "*" || op == "**") && (seq(a) && huge(b) || seq(b) && huge(a)) || op.starts_with("**") && (a.contains("rational") || a.contains('i')) && !b.starts_with("rational") && b.len() > 3;

    cx.explore("binary operators on all pairs of values", |ch| {
        let (op, a, b) = (*ch.of(BIN), *ch.of(&all), *ch.of(&all));
        if too_big(a, op, b) { return None; }
        Some(format!("let a = {}, b = {}\nlet r = a {} b\nprint(repr(r), typeof(r))\n", a, b, op))
    }, |cx, s| conform_src(cx, s, false, "binary operator"));

    const ASSIGN: &[&str] = &["+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", "&=", "|=", "^=", "max=", "min="];
    cx.explore("compound assignment on all pairs of numbers", |ch| {
        let (op, a, b) = (*ch.of(ASSIGN), *ch.of(&nums), *ch.of(&nums));
        if too_big(a, op, b) { return None; }
        Some(match ch.pick(3) {
            0 => format!("let a = {}\na {} {}\nprint(repr(a), typeof(a))\n", a, op, b),
            1 => format!("let a = [0, {}, 0]\na[1] {} {}\nprint(a)\n", a, op, b),
            _ => format!("struct S(p, q)\nlet a = S(0, {})\na->q {} {}\nprint(a)\n", a, op, b),
        })
    }, |cx, s| conform_src(cx, s, false, "compound assignment"));

    let some: Vec<&str> = nums.iter().enumerate().filter(|(i, _)| i % 2 == 0 || *i >= ints.len()).map(|x| *x.1).collect();
    cx.explore("operators as functions, partial operators", |ch| {
        let (op, a, b) = (*ch.of(BIN), *ch.of(&some), *ch.of(&some));
        if too_big(a, op, b) { return None; }
        Some(match ch.pick(5) {
            0 if op != "-" => format!("let f = ({})\nprint(repr(f({}, {})))\n", op, a, b),
            1 if op != "-" => format!("let f = ({} {})\nprint(repr(f({})))\n", op, b, a),
            2 if op != "-" => format!("let f = (({}) {})\nprint(repr(f({})))\n", a, op, b),
            3 if op != "-" => format!("print([({}, {})] . map(fn((p, q)) -> p {} q) . repr)\n", a, b, op),
            4 if op != "-" => format!("print(reduce({}, [{}, {}]) . repr)\n", op, a, b),
            _ => return None,
        })
    }, |cx, s| conform_src(cx, s, false, "operator as a function"));

    cx.explore("element-wise operators on vectors", |ch| {
        let (op, a, b) = (*ch.of(BIN), *ch.of(&some), *ch.of(&some));
        if too_big(a, op, b) { return None; }
        Some(match ch.pick(5) {
            0 => format!("let a = {}, b = {}\nprint(repr((a, 3) {} b))\n", a, b, op),
            1 => format!("let a = {}, b = {}\nprint(repr(a {} (2, b)))\n", a, b, op),
            2 => format!("let a = {}, b = {}\nprint(repr((a, 3) {} (b, 2)))\n", a, b, op),
            3 => format!("let a = {}, b = {}\nprint(repr((a, (1, a)) {} (b, (2, b))))\n", a, b, op),
            _ => format!("let a = {}, b = {}\nprint(repr((a, 3, 4) {} (b, 2)))\n", a, b, op),
        })
    }, |cx, s| conform_src(cx, s, false, "element-wise operator"));

    const UNF: &[&str] = &["-a", "!a", "not a", "--a", "!!a", "-(!a)", "abs(a)", "sqrt(a)", "count_ones(a)", "count_zeros(a)", "real(a)", "imag(a)", "numer(a)", "denom(a)", "int(a)", "rational(a)", "bool(a)", "hex(a)", "bin(a)", "str(a)", "repr(a)", "gcd(a)", "lcm(a)", "sum(a)", "max(a)", "min(a)",
        "a . abs", "a is int", "a is complex", "a is rational", "a is bool", "a is any", "a is nil", "a is function", "a is iterable", "-(a, a)", "!(a, a)", "abs((a, a))", "gcd([a, 12])", "lcm([a, 6])", "sum([a, a, 1])", "max([a, 0])", "min([a, 0])", "int(a, 5)", "a is str", "a is not int", "(-)(a)", "(!)(a)", "(not)(a)", "typeof(a)", "a and 1", "a or 1", "if a then 1 else 2", "max(a, a)", "min(int)", "max(int)"];
    cx.explore("unary operators and numeric functions on every value", |ch| {
        let (f, a) = (*ch.of(UNF), *ch.of(&all));
        if f == "a is any" { return None; }
        Some(format!("let a = {}\nlet r = {}\nprint(repr(r), typeof(r))\n", a, f))
    }, |cx, s| conform_src(cx, s, false, "unary operator or function"));

    const BF: &[&str] = &["gcd(a, b)", "lcm(a, b)", "gcd(a, b, 6)", "lcm(a, b, 4)", "rational(a, b)", "max(a, b)", "min(a, b)", "sum(a, b)", "a max b", "sum(a, b, b)", "complex(a, b)", "a + b * 1i", "a - b * 1i", "a . gcd(b)"];
    cx.explore("numeric functions of two arguments", |ch| {
        let (f, a, b) = (*ch.of(BF), *ch.of(&all), *ch.of(&nums));
        if f == "a max b" { return None; }
        Some(format!("let a = {}, b = {}\nlet r = {}\nprint(repr(r), typeof(r))\n", a, b, f))
    }, |cx, s| conform_src(cx, s, false, "numeric function"));

    // every small operand pair, both signs: exhaustive division, modulo, powers, shifts, bitwise
    let n = cx.tier.pick(24i64, 70);
    let w = (2 * n + 1) as u64;
    cx.each("all small integer pairs", w * w, |cx, i| {
        let (a, b) = ((i / w) as i64 - n, (i % w) as i64 - n);
        let src = format!("let a = {}, b = {}\nprint(a + b, a - b, a * b, a & b, a | b, a ^ b, a << b, a >> b, a < b, a <= b, a == b, a != b, gcd(a, b), lcm(a, b))\nprint(a ** abs b)\n{}", a, b, if b != 0 { "print(a / b, a % b, rational(a, b), rational(a, b) + rational(b, 3), rational(a, b) * 3, rational(a, b) % 2, rational(a, b) < rational(b, 7), rational(a, b) ** 2)\n" } else { "print(a / b)\n" });
        conform_src(cx, src, false, "small integers");
    });
    let k = cx.tier.pick(6i64, 9);
    let w = (2 * k + 1) as u64;
    cx.each("all small complex pairs", w * w * w * w, |cx, i| {
        let g = |j: u32| (i / w.pow(j) % w) as i64 - k;
        let (a, b, c, d) = (g(0), g(1), g(2), g(3));
        let src = format!("let a = {} + {}i, b = {} + {}i\nprint(a + b, a - b, a * b, a == b, -a, abs b, real a, imag b, typeof(a * b))\n{}", a, b, c, d, if c != 0 || d != 0 { "print(a / b)\n" } else { "print(a / b)\n" }).replace("+ -", "- ");
        conform_src(cx, src, false, "small complex numbers");
    });
    if cx.thorough() {
        cx.explore("chains of three operations over all numbers", |ch| {
            let (o1, o2) = (*ch.of(&BIN[..11]), *ch.of(&BIN[..11]));
            let (a, b, c) = (*ch.of(&nums), *ch.of(&some), *ch.of(&some));
            if o1 == "**" || o2 == "**" || o1 == "<<" || o2 == "<<" { return None; }
            Some(format!("let a = {}, b = {}, c = {}\nprint(repr((a {} b) {} c))\n", a, b, c, o1, o2))
        }, |cx, s| conform_src(cx, s, false, "chain of operators"));
    }
}
