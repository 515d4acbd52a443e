//! C26: regular expressions. Every pattern of a grammar, up to a size, is matched against all texts up to a length by the
//! reference matcher (`model/regex.rs`), and by the implementation through `search`, `replace` and `split`.
use super::*;
use crate::model::{regex::{self, Caps, Parsed, Regex}, value};

pub const META: Meta = Meta { id: "C26", run, assumptions: &["all patterns of up to 4 nodes (5 in the thorough tier) over 10 atoms and 11 quantifiers, of up to 6 (7) over fewer, and all strings of up to 4 (5) of 20 tokens; texts of up to 3 characters over three letters (all of them, and all joined by separators)", "repetitions of expressions which match the empty text or have anchors, flags, and classes of Unicode are only required to have some result"] };

fn str_(t: &[char]) -> String { value::quote(&t.iter().collect::<String>()) }
fn list(v: Vec<String>) -> String { format!("[{}]", v.join(", ")) }
/// What a match is as a value
fn hit(t: &[char], c: &Caps) -> String {
    let g = |x: &Option<(usize, usize)>| match x { Some((a, b)) => str_(&t[*a..*b]), None => "nil".into() };
    if c.len() == 1 { g(&c[0]) } else { format!("({})", c.iter().map(g).collect::<Vec<_>>().join(", ")) }
}
fn replaced(t: &[char], m: &[Caps], mut f: impl FnMut(&Caps) -> String) -> String {
    let (mut out, mut end) = (String::new(), 0);
    for c in m { let (a, b) = c[0].unwrap(); out.extend(&t[end..a]); out += &f(c); end = b; }
    out.extend(&t[end..]);
    value::quote(&out)
}
fn split(t: &[char], m: &[Caps]) -> String {
    let (mut v, mut end) = (vec![], 0);
    for c in m { let (a, b) = c[0].unwrap(); v.push(str_(&t[end..a])); end = b; }
    v.push(str_(&t[end..]));
    list(v)
}

/// All texts over an alphabet up to a length
fn texts(a: &[char], n: usize) -> Vec<Vec<char>> {
    let mut v: Vec<Vec<char>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n { let to = v.len(); for i in from..to { for c in a { let mut t = v[i].clone(); t.push(*c); v.push(t); } } from = to; }
    v
}
fn joined(v: &[Vec<char>]) -> Vec<char> { let mut t = vec![]; for x in v { if !t.is_empty() { t.push('-'); } t.extend(x); } t }

/// The pattern as text of the program, in the form that is read as this text
fn lit(p: &str) -> String { value::quote(p) }

/// A pattern against a long text and short ones
fn judge(cx: &mut Cx, p: &str, long: &[char], short: &[Vec<char>], note: &str) {
    if p.is_empty() { return; }
    let re = match regex::parse(p) {
        Parsed::Ok(r) => r,
        Parsed::Invalid => return invalid(cx, p, note),
        Parsed::Unknown => { cx.stat("patterns which are only required to have some result", 1); return anything(cx, p, note) }
    };
    cx.stat("patterns with a reference result", 1);
    // only the first match where boundaries of words are involved: see `boundaries`
    if p.contains("\\b") || p.contains("\\B") {
        let all: Vec<Vec<char>> = short.iter().cloned().chain(long.split(|c| *c == '-').map(|t| t.to_vec())).chain([long.to_vec(), long.iter().rev().copied().collect()]).collect();
        let src = format!("let p = {}\nfor s in {} {{\n let l = []\n replace(p, fn(m) {{ l . push(m); '' }}, s)\n print(repr(l[:1]), repr(split(p, s)[0]))\n}}\n", lit(p), list(all.iter().map(|t| str_(t)).collect()));
        let out: String = all.iter().map(|t| { let m = re.matches(t); format!("{} {}\n", list(m.iter().take(1).map(|c| hit(t, c)).collect()), str_(&t[..m.first().map_or(t.len(), |c| c[0].unwrap().0)])) }).collect();
        return exact(cx, src, out, note);
    }
    let mut src = format!("let p = {}, t = {}, l = []\nprint(repr(search(p, t)))\nprint(repr(replace(p, fn(m) {{ l . push(m); '<' + str(l . len) + '>' }}, t)), repr(l))\nprint(repr(replace(p, '<$0>', t)))\nprint(repr(split(p, t)))\n", lit(p), str_(long));
    let m = re.matches(long);
    let mut k = 0;
    let full: Vec<&Caps> = m.iter().filter(|c| { let (a, b) = c[0].unwrap(); a < b }).collect();
    let mut out = format!("{}\n", list(full.iter().map(|c| hit(long, c)).collect()));
    out += &format!("{} {}\n", replaced(long, &m, |_| { k += 1; format!("<{}>", k) }), list(m.iter().map(|c| hit(long, c)).collect()));
    out += &format!("{}\n{}\n", replaced(long, &m, |c| { let (a, b) = c[0].unwrap(); format!("<{}>", long[a..b].iter().collect::<String>()) }), split(long, &m));
    if !short.is_empty() {
        src += &format!("for s in {} {{ print(repr((search(p, s), replace(p, '.', s), split(p, s)))) }}\n", list(short.iter().map(|t| str_(t)).collect()));
        for t in short {
            let m = re.matches(t);
            let s = list(m.iter().filter(|c| { let (a, b) = c[0].unwrap(); a < b }).map(|c| hit(t, c)).collect());
            out += &format!("({}, {}, {})\n", s, replaced(t, &m, |_| ".".into()), split(t, &m));
        }
    }
    exact(cx, src, out, note);
}
fn exact(cx: &mut Cx, src: String, out: String, note: &str) {
    if cx.opt_compare { return c14::compare(cx, src, note); }
    let i = Input::Run { src, opt: false, stdin: String::new() };
    let o = match cx.exec(&i) { Some(o) => o, None => return };
    if let Input::Run { src, .. } = &i { cx.fresh(src.as_bytes()); }
    cx.transitions += 1;
    cx.validated += 1;
    if !o.ok() || o.out != out { cx.fail(&i, note, format!("stdout: {}", out), &o); } else if let Input::Run { src, .. } = &i { cx.sample(format!("{} => {}", src, out)); }
}

const CALLS: &[&str] = &["search(p, t)", "replace(p, '.', t)", "replace(p, fn(m) -> '.', t)", "split(p, t)"];

fn invalid(cx: &mut Cx, p: &str, note: &str) {
    for c in CALLS {
        let i = Input::Run { src: format!("let p = {}, t = 'ab'\nprint(1)\nprint({})\n", lit(p), c), opt: false, stdin: String::new() };
        let o = match cx.exec(&i) { Some(o) => o, None => return };
        cx.transitions += 1;
        cx.validated += 1;
        cx.stat("invalid patterns", 1);
        if o.end != End::Error || o.out != "1\n" || !o.first().starts_with("ValueError: Cannot compile regex '") { cx.fail(&i, note, "stdout: 1 and the error of a regex that cannot be compiled".into(), &o); }
    }
}
fn anything(cx: &mut Cx, p: &str, note: &str) {
    for (k, c) in CALLS.iter().enumerate() {
        let i = Input::Run { src: format!("let p = {}, t = 'aab ba\\n'\nprint(1)\nprint(repr({}))\n", lit(p), c), opt: false, stdin: String::new() };
        let o = match cx.exec(&i) { Some(o) => o, None => return };
        cx.transitions += 1;
        cx.validated += 1;
        let ok = match o.end { End::Error => o.out == "1\n" && o.first().starts_with("ValueError: Cannot "), _ => o.ok() && o.out.starts_with(if k == 1 || k == 2 { "1\n'" } else { "1\n[" }) };
        if !ok { return cx.fail(&i, note, "a list or text, or the error of a regex".into(), &o); }
    }
}

const ATOMS: &[&str] = &["a", "b", ".", "[ab]", "[^a]", "\\w", "^", "$", "\\b", "é"];
const QUANTIFIERS: &[&str] = &["*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{2,}", "{1,2}?", "*+"];

/// A pattern, and how strong its outermost operator binds: 0 alternatives, 1 sequence, 2 atom, 3 repetition
fn pattern(ch: &mut crate::engine::Ch, n: usize, atoms: &[&'static str], quantifiers: &[&'static str]) -> (String, u8) {
    if n == 1 { return (ch.of::<&str>(atoms).to_string(), 2); }
    let wrap = |(s, k): (String, u8), need: u8| if k < need || (need == 2 && k == 3) { format!("(?:{})", s) } else { s };
    match ch.pick(if n > 2 { 4 } else { 2 }) {
        0 => { let b = pattern(ch, n - 1, atoms, quantifiers); let q = *ch.of(quantifiers); (wrap(b, 2) + q, 3) }
        1 => (format!("({})", pattern(ch, n - 1, atoms, quantifiers).0), 2),
        x => {
            let k = 1 + ch.pick(n - 2);
            let (a, b) = (pattern(ch, k, atoms, quantifiers), pattern(ch, n - 1 - k, atoms, quantifiers));
            if x == 2 { (wrap(a, 1) + &wrap(b, 1), 1) } else { (format!("{}|{}", a.0, b.0), 0) }
        }
    }
}

const SPECIAL: &[&str] = &[
    "(a)(b)?", "(a)|(b)", "((a)|(b))+", "(a|ab)(c|bé)?", "(?P<x>a)(?P<y>b)?", "(?<x>a)", "(?:a|b)é", "(?=b)", "a(?=b)", "a(?!b)", "(?!a).", "(?<=a)b", "(?<!a)b", "(?<=a|b)é", "(?<=-)", "(a|b)\\1", "(.)\\1", "(a)(b)\\2\\1", "(?>a*)a", "(?>a|ab)é", "a*+a", "(a+)(b*?)(é??)", "\\b\\w", "\\w\\b", "\\B", "\\w+", "\\W+", "\\d", "\\D+", "\\s", "\\S+", "[a-c]+", "[^-]+", "[é☃]", "[\\w]+", "[^\\w]", "[ab\\-]{2,3}", "a|b|é", "|a", "a|", "(|a)b", "()", "()a", "(a)?b", "(a)??b", "a{0}", "a{0,1}b", "a{1}", "a{2,2}", "(ab){2}", "(a|b){2,3}?", "^a", "a$", "^", "$", "^$", "^.*$", "^(.)(.)$", "-", "-*", "--", "\\.", "\\-", "\\$", "\\\\", "\n", "\t", "\r", "a\n", "[\n]", "\\n", "\\t", ".*", ".*?", ".+", ".?", "(.)(.)?", "((((a))))", "(a)(b)(é)", "(?=(a))a", "(?!(a))b", "(a(b(é)?)?)?", "(-)?a", "a-|b-", "(?:)a", "(?:a)?", "é+", "☃", "é|☃", "(?<=é)a", "(?<!é)a", "(?=é)",
    // not valid
    "(", ")", "a)", "(a", "[a", "[", "*", "+a", "?", "a**", "|*", "(*)", "(?:a", "(?=a", "[b-a]", "a{2,1}", "\\", "a\\", "(\\", "[\\", "(?P<x", "(?<", "(?", "a{3}{2}", "{", "{2}", "a{", "a{,2}", "a{99999}", "a{99999999999999999999}", "\\8", "(a)\\2", "\\q", "\\é", "\\0", "\\x", "\\x41", "\\x{41}", "\\u00e9", "\\p", "\\pL", "\\p{L}", "\\p{Zz}", "\\k<x>", "(?<x>a)\\k<x>", "\\K", "\\G", "\\Ga", "a\\Kb", "\\A", "\\z", "\\Z", "\\h", "\\e", "(?i)A", "(?i:A)", "(?s).", "(?m)^", "(?x) a", "(?P<x>a)(?P<x>b)", "(?P<>a)", "[]", "[]a]", "[^]]", "[a-]", "[-a]", "[a&&b]", "[[:alpha:]]", "[^\\n]", "[a-\\d]", "^*", "$+", "\\b?", "(?=a)*", "(?:^)*", "(a*)*", "(a?)+", "(a|b*)*", "(^)+", "(a*)+b", "(?<=a*)b", "(?<=a|bb)é", "(?(1)a|b)", "(a)(?(1)b|é)",
];

const TOKENS: &[&str] = &["a", "b", "(", ")", "|", "[", "]", "*", "?", "{", "}", "^", "$", ".", "\\", "1", ",", "-", ":", "é"];

fn run(cx: &mut Cx) {
    let all = texts(&['a', 'b', 'é'], 3);
    let long = joined(&all);
    let short: Vec<Vec<char>> = ["", "a", "ab", "é\n", "-aab"].iter().map(|s| s.chars().collect()).collect();
    // larger patterns over fewer atoms
    let full = cx.tier.pick(4, 5);
    cx.explore("patterns by their size", |ch| {
        let k = 1 + ch.pick(full + 2);
        let (a, q) = match k.saturating_sub(full) { 0 => (ATOMS, QUANTIFIERS), 1 => (&ATOMS[..5], &QUANTIFIERS[..5]), _ => (&ATOMS[..3], &QUANTIFIERS[..3]) };
        Some(pattern(ch, k, a, q).0)
    }, |cx, p| judge(cx, &p, &long, if p.contains(['^', '$', '\\']) || p.len() < 6 { &short } else { &short[..2] }, "pattern"));
    let (few, more) = (texts(&['a', 'b', 'é', '-'], cx.tier.pick(2, 4)), joined(&texts(&['a', 'b', 'é'], cx.tier.pick(4, 5))));
    let others: Vec<Vec<char>> = ["\n", "a\nb", "\r\n", "\t", "☃", "aé☃é", "12 a.b", "\\", "$", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaab"].iter().map(|s| s.chars().collect()).collect();
    cx.explore("special patterns", |ch| Some((*ch.of(SPECIAL), ch.pick(few.len() / 7 + 2))), |cx, (p, k)| {
        let short: Vec<Vec<char>> = if k == 0 { others.clone() } else { few.iter().skip((k - 1) * 7).take(7).cloned().collect() };
        judge(cx, p, if k == 0 { &more } else { &[] }, &short, "special");
    });
    let n = cx.tier.pick(4, 5);
    cx.explore("all strings of tokens as patterns", |ch| { let k = 1 + ch.pick(n); Some((0..k).map(|_| *ch.of::<&str>(TOKENS)).collect::<String>()) }, |cx, p| judge(cx, &p, &"aab-(b)[a]a,1:b{}*".chars().collect::<Vec<_>>(), &[], "tokens"));
    templates(cx);
    functions(cx);
    literals(cx);
    boundaries(cx);
    white(cx);
}

/// Texts with white space, and the empty pattern
fn white(cx: &mut Cx) {
    const P: &[&str] = &["\\s", "\\s+", "\\S", " ", "\t", "\n", "\r", "[ \t]", "(?=\\s)", "^ ", " $", "\\s*", "."];
    let n = cx.tier.pick(4, 5);
    let all = texts(&['a', ' ', '\t', '\n', '\r', 'é'], n);
    cx.each("texts with white space: the empty pattern", all.len() as u64, |cx, i| {
        let t = &all[i as usize];
        let s: String = t.iter().collect();
        let x = list(t.iter().map(|c| str_(&[*c])).collect());
        exact(cx, format!("let t = {}\nprint(repr(t . split('')), len(t), repr(t . list), len(t . split('')))\n", lit(&s)), format!("{} {} {} {}\n", x, t.len(), x, t.len()), "empty pattern");
    });
    let few = texts(&['a', ' ', '\t', '\n', '\r'], n - 1);
    cx.each("texts with white space", (P.len() * (few.len() / 8 + 1)) as u64, |cx, i| {
        let (p, k) = (P[i as usize % P.len()], i as usize / P.len());
        judge(cx, p, &[], &few.iter().skip(k * 8).take(8).cloned().collect::<Vec<_>>(), "white space");
    });
}

/// Boundaries of words between letters outside of ASCII
fn boundaries(cx: &mut Cx) {
    const S: &[(&str, &str)] = &[
        ("search('\\\\b\\\\w', 'éa')", "['é']"), ("replace('\\\\b', '|', 'éa')", "'|éa|'"), ("search('\\\\b.', 'a-(b)')", "['a', '-', 'b', ')']"), ("split('\\\\B', 'aéa')", "['a', 'é', 'a']"),
        ("search('\\\\b\\\\w+', 'éa aé-é')", "['éa', 'aé', 'é']"), ("search('\\\\w+\\\\b', 'éa aé-é')", "['éa', 'aé', 'é']"), ("search('a\\\\b', 'aé a ☃a☃')", "['a', 'a']"), ("search('\\\\ba', 'éa a ☃a☃')", "['a', 'a']"),
    ];
    cx.each("boundaries of words", S.len() as u64, |cx, i| { let (e, x) = S[i as usize]; exact(cx, format!("print(repr({}))\n", e), format!("{}\n", x), "boundary") });
}

fn templates(cx: &mut Cx) {
    const T: &[&str] = &["$", "{", "}", "0", "1", "2", "x", "_", "-", "é", "$$"];
    const P: &[&str] = &["(a)(?P<x>b)?", "a", "(?P<x1>a)|(é)", "(a)(b)"];
    let n = cx.tier.pick(4, 5);
    cx.explore("templates", |ch| { let k = ch.pick(n + 1); Some((0..k).map(|_| *ch.of::<&str>(T)).collect::<String>()) }, |cx, t| {
        let text: Vec<char> = "ab-aé".chars().collect();
        let (mut src, mut out) = (format!("let r = {}\n", value::quote(&t)), String::new());
        for p in P {
            let Parsed::Ok(re) = regex::parse(p) else { panic!("not a pattern: {}", p) };
            src += &format!("print(repr(replace({}, r, 'ab-aé')))\n", lit(p));
            out += &format!("{}\n", replaced(&text, &re.matches(&text), |c| re.expand(&t, &text, c)));
        }
        exact(cx, src, out, "template");
    });
}

/// Functions as replacements are called once for each match, in order, and errors in them end the replacement
fn functions(cx: &mut Cx) {
    const P: &[&str] = &["a", "(a)(b)?", "a*", "", "(?=a)", "é"];
    const F: &[(&str, &str)] = &[
        ("fn(m) { n += 1; l . push(m); if n == K { 1 / 0 }\n 'x' }", "ValueError: Division by zero"), ("fn(m) { n += 1; l . push(m); if n == K then nil else 'x' }", "TypeError: "), ("fn(m) { n += 1; l . push(m); if n == K then 5 else 'x' }", "TypeError: "),
        ("fn(m) { n += 1; l . push(m); if n == K { exit }\n 'x' }", ""), ("fn(m) { n += 1; l . push(m); if n == K then replace('(b)', fn(g) -> g[7], 'b') else replace('.', 'x', 'a') }", "Index '7'"),
    ];
    cx.each("functions as replacements", (P.len() * F.len() * 6) as u64, |cx, i| {
        let i = i as usize;
        let (p, (f, e), k) = (P[i % P.len()], F[i / P.len() % F.len()], i / P.len() / F.len());
        let text: Vec<char> = "ab-aab-éa".chars().collect();
        let Parsed::Ok(re) = regex::parse(p) else { panic!("not a pattern: {}", p) };
        let m = re.matches(&text);
        let src = format!("let n = 0, l = []\nfn end() {{ print(n, repr(l)) }}\nprint(repr(replace({}, {}, 'ab-aab-éa')))\nend()\n", lit(p), f.replace("K", &k.to_string()).replace("push(m);", "push(m); end();"));
        let mut out = String::new();
        let stops = k > 0 && k <= m.len();
        for j in 0..if stops { k } else { m.len() } { out += &format!("{} {}\n", j + 1, list(m[..j + 1].iter().map(|c| hit(&text, c)).collect())); }
        if !stops { out += &format!("{}\n{} {}\n", replaced(&text, &m, |_| "x".into()), m.len(), list(m.iter().map(|c| hit(&text, c)).collect())); return exact(cx, src, out, "function"); }
        let i = Input::Run { src, opt: false, stdin: String::new() };
        let o = match cx.exec(&i) { Some(o) => o, None => return };
        cx.transitions += 1;
        cx.validated += 1;
        let ok = if e.is_empty() { o.ok() } else { o.end == End::Error && o.first().starts_with(e) };
        if !ok || o.out != out { cx.fail(&i, "function", format!("stdout: {} and the error {}", out, e), &o); }
    });
}

/// Arguments which are no texts, partial calls, the empty pattern, and expressions which take too long
fn literals(cx: &mut Cx) {
    const S: &[(&str, &str)] = &[
        ("split('', 'aé-')", "['a', 'é', '-']"), ("split('', '')", "[]"), ("'a b' . split(' ')", "['a', 'b']"), ("['ab', 'b'] . map(search('b'))", "[['b'], ['b']]"), ("['ab', 'b'] . map(replace('b', 'x'))", "['ax', 'x']"), ("['a,b', ','] . map(split(','))", "[['a', 'b'], ['', '']]"),
        ("search('', 'ab')", "[]"), ("replace('', '-', 'ab')", "'-a-b-'"), ("replace('', fn(m) -> '-', 'ab')", "'-a-b-'"), ("['b'] . map(replace('b', fn(m) -> m + m))", "['bb']"), ("'ab' . replace('b', to_upper)", "'aB'"), ("'ab' . replace('(b)', fn((x, y)) -> y + x)", "'abb'"), ("'ab' . replace('.', fn(*m) -> str(len(m)))", "'11'"),
        ("'ab' . replace('.', ord)", "!"), ("'ab' . replace('.', nil)", "!"), ("'ab' . replace('.', 1)", "!"), ("'ab' . replace(1, 'b')", "!"), ("1 . replace('a', 'b')", "!"), ("1 . search('a')", "!"), ("'a' . search(1)", "!"), ("nil . split('a')", "!"), ("'a' . split(nil)", "!"), ("1 . split('')", "!"), ("'a' . replace(['a'], 'b')", "!"), ("'ab' . replace('.', fn(a, b) -> a)", "?"), ("'ab' . replace('.', fn() -> 'a')", "!"),
    ];
    cx.each("arguments", (S.len()) as u64, |cx, i| {
        let i = i as usize;
        let (e, x) = S[i];
        if x.starts_with(['!', '?']) {
            let i = Input::Run { src: format!("print(1)\nlet r = {}\nprint(2)\n", e), opt: false, stdin: String::new() };
            if let Some(o) = cx.exec(&i) { cx.transitions += 1; cx.validated += 1; if o.end != End::Error || o.out != "1\n" || !(o.first().starts_with("TypeError: ") || o.first().starts_with("Incorrect number")) { cx.fail(&i, "arguments", "stdout: 1 and an error".into(), &o); } }
        } else { exact(cx, format!("print(repr({}))\n", e), format!("{}\n", x), "arguments"); }
    });
    const SLOW: &[&str] = &["(?:a|a)*(?=b)\\bc", "(a+)+(?=x)\\1", "(?:a*)*(?!y)\\bz", "(a|aa)+\\1\\1\\1$(?=é)"];
    cx.each("expressions which take too long", (SLOW.len() * CALLS.len()) as u64, |cx, i| {
        let i = i as usize;
        let (p, c) = (SLOW[i % SLOW.len()], CALLS[i / SLOW.len()]);
        let i = Input::Run { src: format!("let p = {}, t = 'a' * 60\nprint(1)\nlet r = {}\nprint(r is list or r is str)\n", lit(p), c), opt: false, stdin: String::new() };
        if let Some(o) = cx.exec(&i) { cx.transitions += 1; cx.validated += 1; let ok = match o.end { End::Error => o.out == "1\n" && o.first().starts_with("ValueError: "), _ => o.ok() }; if !ok { cx.fail(&i, "slow", "a result, or the error of a regex that cannot be evaluated".into(), &o); } }
    });
}
