const EXPR: &[&str] = &["a", "1", "'s'", "f", "(", ")", "[", "]", "{", "}", ",", ":", "-", "+", "<", "!", "not", "in", "is", "=", ".", "->", "...", "if", "then", "else", "and", "fn", "\n", "*", "_", ";", "@", "?", "nil", "+=", "k"];
const STMT: &[&str] = &["a", "b", "1", "(", ")", "{", "}", ",", ";", "\n", "=", "*", "_", "let", "fn", "->", "if", "else", "elif", "then", "while", "for", "in", "do", "loop", "return", "break", "continue", "struct", "module", "self", "assert", ":", "@", "[", "]", "-", "print", "exit", "native", "?", "..."];
const FEW: &[&str] = &["a", "(", ")", "[", "]", ",", "-", "+", ".", "...", "*", "\n", ":", "fn", "if", "then", "else", "f"];
const FEWS: &[&str] = &["a", "b", "(", ")", "{", "}", ",", "\n", "=", "*", "let", "fn", "for", "in", "if", "else", "_"];

/// Programs that together use every construct of the language
pub const CORPUS: &[&str] = &[
    "let x = 1, y = (2, 'é')\nlet a, *_, (b, _) = [1, 2, 3, (4, 5)]\nprint(x, y, a, b)\nx, y = y, x\nx += 2 * -3 ** 2\nprint(x, y)\n",
    "struct P(x, y) {\n  fn sum(self, k=1) -> self->x + y * k // comment\n  fn new(v) { return P(v, v) }\n}\nmodule M {\n  fn twice(f) -> f . f\n  fn id(a?) { a }\n}\nlet p = P->new(3)\np->x = 5 ; print(p->sum(), p->sum(2), [p] . map(->y), M->twice(+ 1)(3))\n",
    "fn f(a, (b, *c), d?, *e) {\n  if a == 1 { return b } elif a > 2 and not d { return c }\n  else { return (a, b, c, d, e) }\n}\nprint(f(1, (2, 3)), f(3, (4,5,6)), f(2, [7], 8, 9, 10))\nprint(f(...[1, (2, 3)]))\n",
    "let i = 0, r = []\nwhile i < 9 {\n  i += 1\n  if i % 2 == 0 { continue }\n  if i > 6 { break }\n  r . push(i) } else { print('never') }\nfor j, k in [1, 2, 3] . enumerate { print(j, k) } else { print('done') }\nloop { break }\ndo { i -= 1 } while i > 3 else { print('end') }\nprint(r, i)\n",
    "let d = {'a': 1, 'b': [2, 3]}, s = {1, 2, 3}, l = [4, 5, 6, 7]\nprint(d['a'], s, l[1:], l[:-1], l[::2], l[-1:0:-1], l . [1] . repr, 'abc'[1])\nl[0] = l[1] = 9\nd['c'] = if l[0] > 3 then 'big' elif true then 'mid' else 'small'\nprint(l, d, 5 in s, 5 not in s, 1 is int, 1 is not str)\n",
    "let add = fn(a, b) -> a + b, inc = (+ 1), half = (/ 2), neg = (-)\nprint([1, 2, 3] . map(inc . half) . reduce(+), map (fn(x) { x * x }) [1, 2], add(1)(2), neg(3), (2 *)(4), (<) (1, 2))\n@memoize\nfn fib(n) { if n < 2 then n else fib(n - 1) + fib(n - 2) }\nprint(fib(20), 10 . range . filter(fn(x) -> x % 3 == 0) . list)\n",
    "/* block\n comment */ let t = \"it's \\\"q\\\" \\n\\t\" // line\nassert t is str : 'message'\nprint(t, '%s %05d' % [1, 2], 0xFf + 0b101 + 1_000, 3i + 2j, -4 ** 2, ~ 1)\n",
    "let x = 3 max 4 min 2\nx max= 5\nx .= str\nx <<= 1\nprint(x)\n",
    "fn outer() {\n  let n = 0\n  fn inner() { n += 1 ; return n }\n  return inner\n}\nlet c = outer()\nprint(c(), c(), if c() > 2 then nil else exit)\nexit\nprint('unreachable')\n",
];

fn tokens(src: &str) -> Vec<(usize, usize)> {
    // own splitting: words and numbers, strings, comments and operators. Positions are of characters
    let c: Vec<char> = src.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let s = i;
        if c[i].is_whitespace() { i += 1; continue; }
        if c[i].is_alphanumeric() || c[i] == '_' { while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; } }
        else if c[i] == '\'' || c[i] == '"' { let q = c[i]; i += 1; while i < c.len() && c[i] != q { if c[i] == '\\' { i += 1; } i += 1; } i += 1; }
        else if c[i] == '/' && c.get(i + 1) == Some(&'/') { while i < c.len() && c[i] != '\n' { i += 1; } continue; }
        else if c[i] == '/' && c.get(i + 1) == Some(&'*') { i += 2; while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') { i += 1; } i += 2; continue; }
        else {
            let two: String = c[i..].iter().take(2).collect();
            let three: String = c[i..].iter().take(3).collect();
            i += if ["...", "**=", "<<=", ">>="].contains(&three.as_str()) { 3 } else if ["->", "**", "<<", ">>", "<=", ">=", "==", "!=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", ".="].contains(&two.as_str()) { 2 } else { 1 };
        }
        out.push((s, i.min(c.len())));
    }
    out
}

fn cut(s: &str, a: usize, b: usize) -> String { s.chars().skip(a).take(b - a).collect() }

fn edits(cx: &mut Cx) {
    let t = cx.thorough();
    let n = CORPUS.len() as u64;
    cx.each("corpus", n, |cx, i| accept(cx, CORPUS[i as usize], "corpus", false));
    // one case per program and token
    let all: Vec<(usize, usize)> = CORPUS.iter().enumerate().flat_map(|(k, s)| (0..tokens(s).len()).map(move |i| (k, i))).collect();
    let words: Vec<&str> = EXPR.iter().chain(STMT).copied().collect();
    cx.each("corpus with one token removed, doubled, or swapped with the next, or with a token of the alphabet put before or in place of it", all.len() as u64, |cx, i| {
        let (k, j) = all[i as usize];
        let s = CORPUS[k];
        let tk = tokens(s);
        let (a, b) = tk[j];
        let len = s.chars().count();
        let (l, w, r) = (cut(s, 0, a), cut(s, a, b), cut(s, b, len));
        robust(cx, &format!("{}{}", l, r), "token removed");
        robust(cx, &format!("{}{} {}{}", l, w, w, r), "token doubled");
        if let Some(&(c, d)) = tk.get(j + 1) { robust(cx, &format!("{}{}{}{}{}", l, cut(s, c, d), cut(s, b, c), w, cut(s, d, len)), "tokens swapped"); }
        for w in &words {
            robust(cx, &format!("{} {} {}", l, w, r), "token replaced");
            robust(cx, &format!("{} {} {}{}", l, w, cut(s, a, b), r), "token inserted");
        }
    });
    let at: Vec<(usize, usize)> = CORPUS.iter().enumerate().flat_map(|(k, s)| (0..=s.chars().count()).map(move |i| (k, i))).collect();
    let chars: Vec<char> = (if t { "aZ0_9xbij'\"\\/*#$~`^%&|!=<>+-.,;:?@()[]{}\n\r\t é☃\u{0}\u{7f}" } else { "a0_'\"\\/*#(){}[]\n\ré\u{0}" }).chars().collect();
    cx.each("corpus cut off at, or with one character removed from or put at, every place", at.len() as u64, |cx, i| {
        let (k, j) = at[i as usize];
        let s = CORPUS[k];
        let len = s.chars().count();
        robust(cx, &cut(s, 0, j), "cut off");
        robust(cx, &cut(s, j, len), "cut off at the start");
        if j < len { robust(cx, &(cut(s, 0, j) + &cut(s, j + 1, len)), "character removed"); }
        for c in &chars { robust(cx, &format!("{}{}{}", cut(s, 0, j), c, cut(s, j, len)), "character inserted"); }
    });
}

/// White space and comments between tokens mean nothing
fn layout(cx: &mut Cx) {
    let progs: Vec<&str> = CORPUS.iter().copied().filter(|s| !s.contains('~')).collect();
    let all: Vec<(usize, usize)> = progs.iter().enumerate().flat_map(|(k, s)| (0..=tokens(s).len() + 1).map(move |i| (k, i))).collect();
    cx.each("white space and comments at every gap between tokens", all.len() as u64, |cx, i| {
        let (k, j) = all[i as usize];
        let s = progs[k];
        let tk = tokens(s);
        let len = s.chars().count();
        let base = match cx.exec(&Input::Run { src: s.into(), opt: false, stdin: String::new() }) { Some(o) => o, None => return };
        let mut same = |cx: &mut Cx, src: String, note: &str| {
            let i = Input::Run { src, opt: false, stdin: String::new() };
            let o = match cx.exec(&i) { Some(o) => o, None => return };
            cx.transitions += 1;
            cx.validated += 1;
            if (&o.end, &o.out, o.first()) != (&base.end, &base.out, base.first()) { cx.fail(&i, note, format!("the same as without: {}", base.canon()), &o); }
        };
        for w in [" ", "\t", "  \t ", "/* c */", "/**/", "/***/", " /* ' \" // */ ", "\r", "/* é☃ */"] {
            if j < tk.len() { let a = tk[j].0; same(cx, format!("{}{}{}", cut(s, 0, a), w, cut(s, a, len)), "white space"); }
            // everywhere
            else if j == tk.len() { let mut o = String::new(); let mut at = 0; for (a, b) in &tk { o += &cut(s, at, *a); o += w; o += &cut(s, *a, *b); at = *b; } o += &cut(s, at, len); o += w; same(cx, o, "white space everywhere"); }
        }
        if j == tk.len() + 1 {
            // existing line ends, outside of comments and strings (the corpus has none in strings)
            for nl in ["\r\n", "\n\n", " \n", "// c\n", "//\n", "// '\n", "\n// /* x\n", "\n/* \n */\n", "\t\r\n\r\n"] {
                let mut o = String::new();
                let mut in_c = false;
                for (n, l) in s.split('\n').enumerate() {
                    if n > 0 { o += if in_c { "\n" } else { nl }; }
                    if l.contains("/*") { in_c = true; }
                    if l.contains("*/") { in_c = false; }
                    o += l;
                }
                same(cx, o, "line ends");
            }
            same(cx, s.trim_end().into(), "no line end at the end");
            same(cx, format!("{}// end", s), "comment at the end");
            same(cx, format!("\n\n{}", s), "empty lines at the start");
        }
    });
}

fn number(t: &str) -> Option<(i64, bool)> {
    let (t, imag) = match t.strip_suffix(|c| c == 'i' || c == 'j') { Some(r) => (r, true), None => (t, false) };
    let (d, radix) = if let Some(r) = t.strip_prefix("0x") { (r, 16) } else if let Some(r) = t.strip_prefix("0b") { (r, 2) } else { (t, 10) };
    if radix == 10 && (t.is_empty() || t.starts_with('_') || (t.starts_with('0') && t != "0")) { return None; }
    let mut v: i128 = 0;
    let mut n = 0;
    for c in d.chars() { if c == '_' { continue; } v = v * radix + c.to_digit(radix as u32)? as i128; n += 1; if v > 1 << 80 { return None; } }
    if n == 0 || v > i64::MAX as i128 || (!imag && v > 1 << 62) { return None; }
    Some((v as i64, imag))
}

fn literals(cx: &mut Cx) {
    let n = cx.tier.pick(5, 6);
    let shown = |src: String, cx: &mut Cx, want: Option<String>, note: &str| {
        let i = Input::Run { src, opt: false, stdin: String::new() };
        let o = match cx.exec(&i) { Some(o) => o, None => return };
        cx.transitions += 1;
        cx.validated += 1;
        match want {
            Some(w) => if !o.ok() || o.out != w { cx.fail(&i, note, format!("prints {:?}", w), &o) },
            None => if o.end != End::Compile || !o.out.is_empty() || diagnostics(&o.err, match &i { Input::Run { src, .. } => src, _ => "" }, "<t>").is_err() { cx.fail(&i, note, "rejected".into(), &o) },
        }
    };
    let lit = |cx: &mut Cx, s: &str| {
        let v = number(s);
        let want = v.map(|(v, im)| format!("{} {}\n", if v == 0 { "0".into() } else if im { format!("{}i", v) } else if v == 1 << 62 { "-4611686018427387904".into() } else { v.to_string() }, if im && v != 0 { "complex" } else { "int" }));
        let want = want.map(|w| if w.ends_with("complex\n") || w.ends_with("int\n") { w.rsplit_once(' ').unwrap().0.to_string() + "\n" } else { w });
        shown(format!("print({})", s), cx, want, "number literal");
    };
    cx.explore("number literals", |ch| { let k = 1 + ch.pick(n); let mut s = String::from(*ch.of(&["0", "1", "9"])); for _ in 1..k { s.push(*ch.of(&['0', '1', '7', 'a', 'F', 'x', 'b', '_', 'i', 'j'])); } Some(s) }, |cx, s| {
        // a literal may be followed by a name: that is a call
        if number(&s).is_none() && s.chars().any(|c| c == 'x' || c == 'b' || c == 'a' || c == 'F' || c == 'i' || c == 'j') && !s.starts_with('0') { robust(cx, &format!("print({})", s), "number literal"); return; }
        if number(&s).is_none() && s.starts_with('0') && s.len() > 2 && (s[1..].starts_with('x') || s[1..].starts_with('b') || s[1..].starts_with('i') || s[1..].starts_with('j')) { robust(cx, &format!("print({})", s), "number literal"); return; }
        lit(cx, &s);
    });
    let big: Vec<String> = {
        let mut v = Vec::new();
        for k in [31u32, 32, 60, 61, 62, 63, 64, 65] { for d in [-2i128, -1, 0, 1, 2] { let x = (1i128 << k) + d; for s in [format!("{}", x), format!("0x{:x}", x), format!("0x{:X}", x), format!("0b{:b}", x), format!("0x_{:x}_", x), format!("{}_", x)] { v.push(format!("{}i", s)); v.push(s); } } }
        v.push("9".repeat(40)); v.push(format!("0x{}", "f".repeat(30))); v.push(format!("0x{}1", "0".repeat(30))); v.push(format!("0b{}1", "0".repeat(80)));
        v
    };
    cx.each("large number literals", big.len() as u64, |cx, i| lit(cx, &big[i as usize]));
    // strings
    let m = cx.tier.pick(5, 6);
    cx.explore("string literals", |ch| {
        let q = *ch.of(&['\'', '"']);
        let k = ch.pick(m + 1);
        let s: String = (0..k).map(|_| *ch.of(&['\\', '\'', '"', 'n', 'r', 't', 'x', '\n', '/', 'é', '\r'])).collect();
        Some((q, s))
    }, |cx, (q, s)| {
        // the value, or None: not terminated, or followed by more
        let mut v = String::new();
        // carriage returns in the source never get included in a string
        let mut it = s.chars().filter(|c| *c != '\r');
        let mut ok = true;
        while let Some(c) = it.next() {
            if c == q { ok = false; break; }
            if c != '\\' { v.push(c); continue; }
            match it.next() { None => { ok = false; break; } Some('n') => v.push('\n'), Some('r') => v.push('\r'), Some('t') => v.push('\t'), Some(c @ ('\\' | '\'' | '"')) => v.push(c), Some(c) => { v.push('\\'); v.push(c); } }
        }
        let src = format!("print(len({0}{1}{0}), {0}{1}{0})", q, s);
        if ok { shown(src, cx, Some(format!("{} {}\n", v.chars().count(), v)), "string literal"); } else { robust(cx, &src, "string literal"); }
    });
    cx.explore("character strings", |ch| { let k = ch.pick(5); Some((0..=k).map(|_| *ch.of(&['a', '1', '0', '\'', '\\', '/', '*', '\n', '\r', ' ', '.', '-', '>', '=', '<', '!', '#', 'é', '(', ')', '{', '_', '@', '\0'])).collect::<String>()) }, |cx, s| { if s.len() > 5 && !s.contains(['a', '1', '(']) { return; } robust(cx, &s, "character string"); });
    cx.each("nesting", 60 * 16, |cx, i| {
        let d = [1, 10, 100, 200, 400, 1000][(i / 16 % 6) as usize] + i as usize / 96;
        let (a, m, b) = [("(", "1", ")"), ("[", "", "]"), ("{", "1", "}"), ("-", "1", ""), ("not ", "1", ""), ("if 1 then ", "2", " else 3"), ("fn() -> ", "1", ""), ("fn() { ", "", "}"), ("do { ", "", "}"), ("f(", "", ")"), ("a[", "1", "]"), ("(", "", ""), ("[", "", ""), ("", "", "}"), ("{1:", "1", "}"), ("1 + (", "2", ")")][(i % 16) as usize];
        if d > 300 && !cx.thorough() && d % 10 != 0 { return; }
        robust(cx, &format!("let a = [1], f = int\nlet r = {}{}{}", a.repeat(d), m, b.repeat(d)), "nesting");
    });
}

fn run(cx: &mut Cx) {
    let (n, m) = (4, cx.tier.pick(5, 6));
    let acc = true;
    let ws = |ch: &mut Ch, a: &[&str], lo: usize, n: usize| { let k = lo + ch.pick(n + 1 - lo); (0..k).map(|_| *ch.of::<&str>(a)).collect::<Vec<_>>().join(" ") };
    cx.explore("token strings in expression position", |ch| Some(ws(ch, EXPR, 1, n)), |cx, s| accept(cx, &format!("struct S(k)\nlet a = [7, 8]\nfn f(x?) -> x\nprint({})", s), "token string", acc));
    cx.explore("token strings", |ch| Some(ws(ch, STMT, 1, n)), |cx, s| accept(cx, &format!("let a = 3\n{}", s), "token string", acc));
    cx.explore("token strings in a block", |ch| Some(ws(ch, STMT, 1, n)), |cx, s| accept(cx, &format!("let a = 3\nfn f(b) {{ while true {{ {} }} }}\n", s), "token string", acc));
    cx.explore("longer token strings over fewer tokens, in expression position", |ch| Some(ws(ch, FEW, n + 1, 5)), |cx, s| accept(cx, &format!("struct S(k)\nlet a = [7, 8]\nfn f(x?) -> x\nprint({})", s), "token string", acc));
    if cx.thorough() { cx.explore("token strings of six tokens in expression position", |ch| Some(ws(ch, &FEW[..14], 6, 6)), |cx, s| accept(cx, &format!("struct S(k)\nlet a = [7, 8]\nfn f(x?) -> x\nprint({})", s), "token string", acc)); }
    cx.explore("longer token strings over fewer tokens", |ch| Some(ws(ch, FEWS, n + 1, m)), |cx, s| accept(cx, &format!("let a = 3\n{}", s), "token string", acc));
    // inside of every bracketed construct
    const IN: &[(&str, &[&str])] = &[
        ("struct S(□) { fn m(self) -> 1 }\nprint(1)", &["a", "b", ",", "1", "(", ")", "*", "=", "_", "\n"]),
        ("struct S(a) { □ }\nprint(1)", &["fn", "m(self)", "m()", "->", "1", "a", "{", "}", ",", "\n"]),
        ("module M { □ }\nprint(1)", &["fn", "m(a)", "()", "m", "->", "1", "{", "}", "self", "@", "\n"]),
        ("fn f(□) -> 1\nprint(f)", &["a", "b", ",", "*", "?", "=", "1", "(", ")", "_", "..."]),
        ("print(fn(□) { 1 })", &["a", "b", ",", "*", "?", "=", "1", "(", ")", "_"]),
        ("let □ = [1, [2, 3]]\nprint(2)", &["a", "b", ",", "*", "_", "(", ")", "=", "1", "nil"]),
        ("let a, b\n□ = [1, [2, 3]]\nprint(2)", &["a", "b", ",", "*", "_", "(", ")", "a[0]", "1", "="]),
        ("for □ in [[1, 2]] { print(3) }", &["a", "b", ",", "*", "_", "(", ")", "1", "let"]),
        ("let a = [1]\nprint([□])", &["a", ",", "...", "1", ":", "-", "\n", "(", ")", "]"]),
        ("let a = [1]\nprint({□})", &["a", ",", "...", "1", ":", "nil", "\n", "(", ")", "}"]),
        ("let a = [1]\nprint(a[□])", &["a", ",", "...", "0", ":", "-", "\n", "nil", "]", "="]),
        ("let a = [1]\nassert □\n'end'", &["a", ",", ":", "==", "1", "not", "a[0]", "(", ")", "'m'"]),
        ("let a = [1]\nlet f = □ 1\nprint(2)", &["if", "then", "else", "elif", "a", "fn", "(", ")", "->", "not"]),
        ("let a = [1]\nif □ { print(2) }", &["a", "{", "}", "else", "elif", "1", "then", "\n", "if"]),
        ("let a = 1\ndo { a = 2 } □\nprint(a)", &["while", "else", "a", "{", "}", "1", "==", "\n", ";"]),
        ("let a = 1\nwhile □\nprint(a)", &["a", "{", "}", "else", "break", "1", "==", "nil", "\n", "continue"]),
        ("@ □ fn g() { print(4) }\nprint(5)", &["memoize", "a", "(", ")", "@", "fn", "->", "\n", "1"]),
        ("fn f() { □ }\nprint(f())", &["return", "1", ",", ";", "\n", "{", "}", "let", "a", "="]),
    ];
    let k = cx.tier.pick(3, 4);
    cx.explore("token strings inside of every bracketed construct", |ch| { let (t, a) = *ch.of(IN); Some(t.replace("□", &ws(ch, a, 0, k))) }, |cx, s| accept(cx, &s, "token string inside of a construct", acc));
    // every token there is, by itself, next to every other one, and in the middle of things
    const ALL: &[&str] = &["let", "fn", "return", "if", "elif", "then", "else", "loop", "while", "for", "in", "is", "not", "break", "continue", "do", "true", "false", "nil", "struct", "module", "native", "exit", "assert", "self", "and", "or", "=", "+=", "-=", "*=", "/=", "%=", "**=", "&=", "|=", "^=", "<<=", ">>=", ".=", "+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "!", "<", "<=", ">", ">=", "==", "!=", "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "?", "->", "...", "@", "_", "x", "a", "12", "3i", "'s'", "\"t\"", "max", "min", "max=", "min=", "not in", "is not", "\n", "// c\n", "/* c */"];
    cx.explore("pairs of all tokens", |ch| { let t = *ch.of(&["□", "let a = 1\nlet x = a □\nprint(x)", "let a = [1]\nprint(a □ 2)", "let a = 1\na □ 2", "let a = 1\nfn f(□) { □ }", "let a = 1\nif a { □ } else { □ }", "for a □ { a }"]); let (p, q) = (*ch.of(ALL), if ch.flag() { *ch.of(ALL) } else { "" }); Some(t.replace('□', &format!("{} {}", p, q))) }, |cx, s| accept(cx, &s, "pair of tokens", false));
    edits(cx);
    layout(cx);
    literals(cx);
}
