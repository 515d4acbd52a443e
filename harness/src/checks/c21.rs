//! C21: the highlighter. All texts over an alphabet of characters, all sequences of tokens, and all places where a text can be
//! divided into what was entered before and the current text, against a reference scanner.
use super::*;
use crate::model::natives;

pub const META: Meta = Meta { id: "C21", run, assumptions: &["texts of up to 4 characters of a scanner alphabet (5 in the thorough tier), sequences of up to 3 tokens, and a corpus of programs", "how spaces next to a comment, and characters which belong to no token, are marked is not specified", "the text with no newline in a marked section is what a front end with line breaks gets"] };

const TYPES: &[&str] = &["int", "str", "function", "list", "heap", "dict", "set", "vector", "any", "bool", "iterable", "complex", "rational"];
const KEYWORDS: &[&str] = &["let", "fn", "return", "if", "elif", "else", "then", "loop", "while", "for", "break", "continue", "do", "struct", "exit", "assert", "module", "native"];
const CONSTANTS: &[&str] = &["true", "false", "nil", "and", "or", "not", "is", "in", "self"];
const OPS: &[&str] = &["**=", "<<=", ">>=", "...", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "%=", ".=", "**", "<<", ">>", "->", "=", "+", "-", "*", "/", "%", "&", "|", "^", "!", "<", ">", "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "@", "_", "?"];

/// The kind of each character: the first token's number is 1; `None` is a space or unspecified
#[derive(Clone, Copy, PartialEq, Debug)]
struct Mark { class: Option<&'static str>, token: usize }

/// The kinds of the characters of a text, up to its first lexical error. Spaces which are not next to a comment are part of no section
fn classes(c: &[char]) -> Vec<Mark> {
    let (mut out, end) = tokens(c);
    let mut k = 0;
    while k < end {
        let mut e = k;
        while e < end && c[e].is_ascii_whitespace() && out[e].class.is_none() { e += 1; }
        let comment = |j: Option<usize>| j.map_or(false, |j| j >= end || out[j].class == Some("comment"));
        if e > k && !comment(k.checked_sub(1)) && (e == c.len() || !comment(Some(e))) {
            for j in k..e { out[j].class = Some(""); }
        }
        k = e + 1;
    }
    out
}

/// The kinds of the characters of the tokens of a text, and where its first lexical error is
fn tokens(c: &[char]) -> (Vec<Mark>, usize) {
    let none = Mark { class: None, token: 0 };
    let mut out = vec![none; c.len()];
    let (mut i, mut n) = (0, 0);
    let word = |x: char| x.is_ascii_alphanumeric() || x == '_';
    while i < c.len() {
        let ch = c[i];
        let at = i;
        let next = c.get(i + 1).copied().unwrap_or(' ');
        if matches!(ch, ' ' | '\t' | '\r' | '\n') { i += 1; continue; }
        let class = if ch == '/' && next == '/' {
            while i < c.len() && c[i] != '\n' { i += 1; }
            "comment"
        } else if ch == '/' && next == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) { i += 1; }
            if i == c.len() { return (out, at); }
            i += 2;
            "comment"
        } else if ch.is_ascii_digit() {
            let radix = match next { 'x' if ch == '0' => 16, 'b' if ch == '0' => 2, _ => 10 };
            if radix != 10 { i += 2; }
            let st = i;
            if radix == 10 && ch == '0' { i += 1; if word(next) && !matches!(next, 'i' | 'j') { return (out, at); } }
            else { while i < c.len() && (c[i] == '_' || c[i].is_digit(radix)) { i += 1; } }
            let d: String = c[st..i].iter().filter(|x| **x != '_').collect();
            // integers have 63 bits, and the smallest integer's absolute value is allowed
            let ok = i64::from_str_radix(&d, radix).map_or(false, |v| v <= 1 << 62);
            let im = matches!(c.get(i), Some('i' | 'j'));
            if im { i += 1; }
            if !ok { return (out, at); }
            "number"
        } else if ch.is_ascii_alphabetic() {
            while i < c.len() && word(c[i]) { i += 1; }
            let w: String = c[at..i].iter().collect();
            let w = w.as_str();
            if KEYWORDS.contains(&w) { "keyword" } else if CONSTANTS.contains(&w) { "constant" } else if TYPES.contains(&w) { "type" } else if natives::names().contains(&w) { "native" } else { "syntax" }
        } else if ch == '\'' || ch == '"' {
            i += 1;
            // carriage returns are no part of a string
            while i < c.len() && c[i] != ch { if c[i] == '\\' { while c.get(i + 1) == Some(&'\r') { i += 1; } i += 1; } i += 1; }
            if i >= c.len() { return (out, at); }
            i += 1;
            "string"
        } else {
            // two dots are two tokens, whatever follows
            if c[at..].starts_with(&['.', '.']) && c.get(at + 2) != Some(&'.') { n += 1; out[at] = Mark { class: Some("syntax"), token: n }; n += 1; out[at + 1] = Mark { class: Some("syntax"), token: n }; i += 2; continue; }
            match OPS.iter().find(|o| c[at..].iter().take(o.len()).copied().eq(o.chars())) { Some(o) => i += o.len(), None => return (out, at) }
            "syntax"
        };
        n += 1;
        // comments are one section, with the spaces around them
        for k in at..i { out[k] = Mark { class: Some(class), token: if class == "comment" { 0 } else { n } }; }
    }
    (out, i)
}

/// Whether the sections of a highlighted text are well formed, its characters and their kinds; the number of each section
pub(super) fn sections(t: &str) -> Option<Vec<(char, &str, usize)>> {
    let mut out = Vec::new();
    let (mut rest, mut n) = (t, 0);
    while let Some(c) = rest.chars().next() {
        rest = &rest[c.len_utf8()..];
        if c == '\u{1}' {
            n += 1;
            let (ty, r) = rest.split_once('\u{2}')?;
            let (body, r) = r.split_once('\u{3}')?;
            if body.contains('\u{1}') || body.contains('\u{2}') { return None; }
            out.extend(body.chars().map(|c| (c, ty, n)));
            rest = r;
        } else if c == '\u{2}' || c == '\u{3}' { return None; } else { out.push((c, "", 0)); }
    }
    Some(out)
}

fn judge(cx: &mut Cx, prefix: &str, text: &str, exp: &[Mark], note: &str) {
    let i = Input::Hl { prefix: prefix.into(), text: text.into() };
    let o = match cx.exec(&i) { Some(o) => o, None => return };
    cx.fresh(format!("{}\u{4}{}", prefix, text).as_bytes());
    cx.transitions += 1;
    if o.end != End::Done { return cx.fail(&i, note, "the text is highlighted".into(), &o); }
    cx.validated += 1;
    let (plain, lines) = o.out.split_once('\u{4}').unwrap_or((&o.out, ""));
    for (kind, t) in [("", plain), (" with line breaks", lines)] {
        let s = match sections(t) { Some(s) => s, None => return cx.fail(&i, note, format!("well formed sections{}", kind), &o) };
        if !s.iter().map(|x| x.0).eq(text.chars()) { return cx.fail(&i, note, format!("exactly the text `{}`{}", text, kind), &o); }
        for (k, (m, g)) in exp.iter().zip(&s).enumerate() {
            let c = match m.class { Some(c) => c, None => continue };
            if c == "" && g.1 != "" { return cx.fail(&i, note, format!("the character {} is a space, and part of no section{}", k + 1, kind), &o); }
            if g.1 == "" && g.0.is_whitespace() { continue; }
            if g.1 != c && !(g.0 == '\n') { return cx.fail(&i, note, format!("the character {} `{}` is part of a {}{}", k + 1, g.0, c, kind), &o); }
            if g.0 == '\n' && kind != "" && g.2 != 0 { return cx.fail(&i, note, format!("no section contains a newline{}", kind), &o); }
            // a token is one section
            if let (Some(p), Some(q)) = (k.checked_sub(1).and_then(|j| exp.get(j)), k.checked_sub(1).map(|j| s[j])) {
                if kind == "" && m.token != 0 && p.class.is_some() && (p.token == m.token) != (q.2 == g.2) && q.2 != 0 && g.2 != 0 { return cx.fail(&i, note, format!("the section of the token at character {}", k + 1), &o); }
            }
        }
    }
    cx.sample(format!("{:?} + {:?} => {}", prefix, text, plain.replace(['\u{1}'], "<").replace('\u{2}', ":").replace('\u{3}', ">")));
}

/// The text at every division
fn divisions(cx: &mut Cx, t: &str, note: &str, all: bool) {
    let c: Vec<char> = t.chars().collect();
    let m = classes(&c);
    for k in 0..c.len().max(1) {
        if k > 0 && !all { break; }
        let p: String = c[..k].iter().collect();
        let s: String = c[k..].iter().collect();
        judge(cx, &p, &s, &m[k..], note);
    }
}

fn run(cx: &mut Cx) {
    let chars: &[char] = &['a', 'i', '0', '1', 'x', '\'', '"', '\\', '/', '*', ' ', '\n', '#', '_', 'é', '.', '=', '-', '>', '☃', '\r', 'b', '('];
    let n = cx.tier.pick(4, 5);
    cx.explore("all texts of characters", |ch| { let k = ch.pick(n + 1); Some((0..k).map(|_| *ch.of(chars)).collect::<String>()) }, |cx, s| divisions(cx, &s, "characters", true));
    let few: &[char] = &['a', '0', '\'', '/', '*', ' ', '\n', 'é', '"'];
    let n = cx.tier.pick(6, 7);
    cx.explore("longer texts of fewer characters", |ch| { let k = 4 + ch.pick(n - 3); Some((0..k).map(|_| *ch.of(few)).collect::<String>()) }, |cx, s| divisions(cx, &s, "characters", true));
    // every token, alone and next to every other
    let mut toks: Vec<String> = KEYWORDS.iter().chain(CONSTANTS).chain(TYPES).chain(OPS).map(|s| s.to_string()).collect();
    toks.extend(natives::names().iter().map(|s| s.to_string()));
    toks.extend(["x", "lett", "printer", "_x", "x1", "Let", "self_", "nila", "0", "12", "1_0", "0xfF", "0b1_01", "0i", "5i", "7j", "4611686018427387903", "4611686018427387904", "4611686018427387905", "0x4000000000000000", "0x4000000000000001", "99999999999999999999", "'a'", "\"b'\"", "''", "'\\''", "'x\ny'", "'☃'", "// c", "/* d */", "/* e\n f */", "é", "#", "'", "/*", "0z", "`", "1.5"].iter().map(|s| s.to_string()));
    toks.sort();
    toks.dedup();
    let toks: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
    cx.explore("pairs of tokens", |ch| {
        let a = *ch.of::<&str>(&toks);
        let b = *ch.of::<&str>(&toks);
        let sep = *ch.of(&["", " ", "\n"]);
        Some(format!("{}{}{}", a, sep, b))
    }, |cx, s| divisions(cx, &s, "tokens", false));
    let some: &[&str] = &["let", "nil", "print", "list", "x", "7", "2i", "'é\n'", "\"a\"", "// c\n", "/* d\n*/", "+=", "(", "->", "\n", " ", "#", "0z", "'"];
    let n = cx.tier.pick(4, 5);
    cx.explore("sequences of tokens, divided everywhere", |ch| {
        let k = 1 + ch.pick(n);
        let sep = *ch.of(&["", " ", "\n  "]);
        Some((0..k).map(|_| *ch.of::<&str>(some)).collect::<Vec<_>>().join(sep))
    }, |cx, s| divisions(cx, &s, "tokens", true));
    cx.each("programs, divided everywhere", c16::CORPUS.len() as u64, |cx, i| divisions(cx, c16::CORPUS[i as usize], "program", true));
}
