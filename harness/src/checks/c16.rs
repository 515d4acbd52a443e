//! C16: the front end. Every text of the bounded spaces is compiled or rejected, and a rejection is a list of well formed
//! diagnostics, each of which quotes the lines it names, and points to a place that is really the place of the error: the text
//! before it has no error of its own, and the text up to and including it is not a complete program.
//! Literals, comments and white space are judged by an own description of the lexical grammar, complete texts by the reference parser.
use super::*;
use crate::engine::Ch;
use crate::model::{check, natives, parse};

pub const META: Meta = Meta { id: "C16", run, assumptions: &["texts over the listed token and character alphabets up to the stated length, and single edits of a corpus of programs that uses every construct", "wording of diagnostics is not judged, only their place, and that there is at least one"] };

#[derive(Debug, Clone, PartialEq)]
pub struct Diag { pub msg: String, pub from: usize, pub to: usize, pub eof: bool }

/// Reads a list of error reports. Error: what is malformed
pub fn diagnostics(err: &str, src: &str, name: &str) -> Result<Vec<Diag>, String> {
    let lines: Vec<&str> = src.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    let mut starts = vec![0];
    for l in src.split('\n') { starts.push(starts.last().unwrap() + l.chars().count() + 1); }
    let l: Vec<&str> = err.split('\n').collect();
    let mut i = 0;
    let mut out = Vec::new();
    let tail = format!(" ({})", name);
    loop {
        // the message ends at the location
        let mut msg = String::new();
        while i < l.len() && !(l[i].starts_with("  at: line ") && l[i].ends_with(&tail)) { if !msg.is_empty() { msg.push('\n'); } msg += l[i]; i += 1; }
        if i >= l.len() { return if msg.trim().is_empty() && !out.is_empty() { Ok(out) } else { Err(format!("text without a location: {:?}", msg)) }; }
        if msg.is_empty() { return Err("location without a message".into()); }
        let at = &l[i]["  at: line ".len()..l[i].len() - tail.len()];
        let (a, b) = match at.split_once(" - ") { Some((a, b)) => (a.parse::<usize>(), b.parse::<usize>()), None => (at.parse(), at.parse()) };
        let (a, b) = match (a, b) { (Ok(a), Ok(b)) if a >= 1 && b >= a && b <= lines.len() => (a, b), _ => return Err(format!("line number {:?}", at)) };
        i += 1;
        // the trace of a runtime error
        while l.get(i).map_or(false, |x| x.starts_with("  at: `")) { i += 1; }
        if l.get(i) != Some(&"") { return Err("no empty line after the location".into()); }
        i += 1;
        let w = (b + 1).to_string().len();
        for k in a..=b {
            let q = lines[k - 1];
            let e = format!("{:w$} |{}{}", k, if q.is_empty() { "" } else { " " }, q, w = w);
            if l.get(i) != Some(&e.as_str()) { return Err(format!("expected the quoted line {:?}, got {:?}", e, l.get(i))); }
            i += 1;
        }
        let p = format!("{:w$} |", b + 1, w = w);
        let c = match l.get(i).and_then(|c| c.strip_prefix(p.as_str())) { Some(c) => c, None => return Err(format!("no marker line {:?}", l.get(i))) };
        i += 1;
        let pad: String = c.chars().take_while(|c| *c == ' ' || *c == '\t').collect();
        let n = c.chars().count() - pad.chars().count();
        if n == 0 || c.chars().skip(pad.chars().count()).any(|c| c != '^') { return Err(format!("marker {:?}", c)); }
        if a == b {
            let q: Vec<char> = lines[a - 1].chars().collect();
            let s = if q.is_empty() { pad.chars().count() } else { match pad.chars().count() { 0 => return Err("marker without margin".into()), k => k - 1 } };
            if s > q.len() || (s < q.len() && s + n > starts[a] - starts[a - 1]) || (s == q.len() && n > 3) { return Err(format!("marker of line {} at column {}, {} wide, is out of the line", a, s, n)); }
            if !q.is_empty() && pad.chars().skip(1).zip(&q).any(|(p, c)| p != if *c == '\t' { '\t' } else { ' ' }) { return Err("the margin does not copy the tabs".into()); }
            let eof = s == q.len() && n == 3;
            let from = starts[a - 1] + s;
            out.push(Diag { msg, from, to: if eof { from } else { from + n }, eof });
        } else {
            let m = (a..=b).map(|k| lines[k - 1].chars().count()).max().unwrap();
            if n != m { return Err(format!("marker below lines {} to {} is {} wide", a, b, n)); }
            out.push(Diag { msg, from: starts[a - 1], to: starts[b] - 1, eof: false });
        }
        // reports are separated by an empty line
        match l.get(i) { Some(&"") | None => i += 1, x => return Err(format!("no empty line between reports: {:?}", x)) }
    }
}

fn compile(cx: &mut Cx, src: &str, opt: bool) -> Option<(Input, Obs)> { let i = Input::Compile { src: src.into(), opt }; let o = cx.exec(&i)?; Some((i, o)) }

/// Compiles, or is rejected at the right place. Returns whether it compiles.
fn robust(cx: &mut Cx, src: &str, note: &str) -> Option<bool> {
    let (i, o) = compile(cx, src, false)?;
    if !cx.fresh(src.as_bytes()) { return Some(o.end == End::Done); }
    cx.transitions += 1;
    cx.validated += 1;
    let (j, o1) = compile(cx, src, true)?;
    // the optimizer may report errors of constant expressions early
    let rt = |o: &Obs| -> Vec<Diag> { diagnostics(&o.err, src, "<t>").unwrap_or_default().into_iter().filter(|d| !d.msg.starts_with("TypeError") && !d.msg.starts_with("ValueError")).collect() };
    if (o.end.clone(), &o.err) != (o1.end.clone(), &o1.err) && (o1.end != End::Compile || !o1.err.contains("Error: ") || rt(&o) != rt(&o1)) { cx.fail(&j, note, format!("the same as without optimization: {:?} {}", o.end, o.err), &o1); return None; }
    match o.end {
        End::Done => { cx.stat("texts that compile", 1); Some(true) }
        End::Compile => {
            cx.stat("texts that are rejected", 1);
            let d = match diagnostics(&o.err, src, "<t>") { Ok(d) => d, Err(e) => { cx.fail(&i, note, format!("well formed diagnostics ({})", e), &o); return None; } };
            for (k, x) in d.iter().enumerate() { if d[..k].contains(x) { cx.fail(&i, note, format!("one report per error, not several of {:?}", x), &o); return None; } }
            place(cx, src, &d[0], &i, &o, note)?;
            Some(false)
        }
        _ => { cx.fail(&i, note, "compiles, or is rejected".into(), &o); None }
    }
}

fn place(cx: &mut Cx, src: &str, d: &Diag, i: &Input, o: &Obs, note: &str) -> Option<()> {
    let c: Vec<char> = src.chars().collect();
    // others concern what was read before
    let late = |m: &str| !m.starts_with("Expected") || m.starts_with("Expected an expression, got ");
    if late(&d.msg) { return Some(()); }
    let pre: String = c[..d.from.min(c.len())].iter().collect();
    let (_, p) = compile(cx, &pre, false)?;
    if p.end == End::Compile {
        if let Ok(e) = diagnostics(&p.err, &pre, "<t>") {
            let n = pre.chars().count();
            if !late(&e[0].msg) && !e[0].msg.contains("'*' token") && e[0].from < pre.trim_end().chars().count() && e[0].to < n { cx.fail(i, note, format!("the place of the first error of the text before: {:?}", e[0]), o); return None; }
        }
    }
    // an error at the end of a line concerns what follows
    let mut to = d.to.min(c.len());
    let blank = c[d.from.min(c.len())..to].iter().all(|x| x.is_whitespace());
    if blank { while to < c.len() && c[to].is_whitespace() { to += 1; } while to < c.len() && c[to] != '\n' { to += 1; } }
    // over lines that hold only comments
    while blank && to < c.len() { let u: String = c[..to].iter().collect(); if compile(cx, &u, false)?.1.end != End::Done { break; } to += 1; while to < c.len() && c[to] != '\n' { to += 1; } }
    let upto: String = c[..to].iter().collect();
    if upto.chars().count() < c.len() {
        let (_, q) = compile(cx, &upto, false)?;
        if q.end == End::Done { cx.fail(i, note, format!("a place that is the place of an error: the text up to it {:?} is a complete program", upto), o); return None; }
    }
    Some(())
}

/// The reference parser and the implementation accept the same texts, and agree on what they do
fn accept(cx: &mut Cx, src: &str, note: &str, both: bool) {
    let ok = match robust(cx, src, note) { Some(k) => k, None => return };
    let p = parse::parse(src);
    // fields are declared by structs
    let flds: Vec<&str> = src.split("->").skip(1).map(|t| t.trim_start().split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap()).collect();
    if flds.iter().any(|f| !f.is_empty() && *f != "k") && !ok { return; }
    let legal = p.as_ref().map_or(false, |p| check::check(p, natives::names()).is_empty() && check::structure(p).is_empty());
    if ok != legal && (legal || both) {
        if let Some((i, o)) = compile(cx, src, false) { cx.fail(&i, note, if legal { "the text is a program".into() } else { "the text is not a program".into() }, &o); }
    }
    if ok && legal && !src.contains("while") && !src.contains("loop") && !src.contains("continue") { cx.stat("texts accepted by both", 1); conform_src(cx, src.into(), false, note); }
}

include!("c16_spaces.rs");
