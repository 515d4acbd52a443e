//! C19: interactive sessions. All sequences of inputs over alphabets, against the reference interpreter which keeps its global state
//! between inputs; every piece of the session's output, and every prompt, is compared. Whether an input is complete is
//! decided by the reference parser.
use super::*;
use crate::model::{check, interp::Interp, natives, parse, value};

pub const META: Meta = Meta { id: "C19", run, assumptions: &["the names of a destructuring declaration that failed, and functions of a failing input that refer to variables whose declaration was not reached, are not used afterwards", "reports of runtime errors are judged by message, form and quotation of a line of the session; lines and traces in a space of their own"] };

enum Reply { Text(String), Failure(String, Er), Rejected(Vec<String>), More, End(String), Unknown }

/// The replies to each line, as far as they are known
fn simulate(lines: &[String]) -> Vec<(&'static str, Reply, String)> {
    let mut it = Interp::new();
    let mut out = Vec::new();
    let mut buf = String::new();
    for l in lines {
        let prompt = if buf.is_empty() { ">>> " } else { "... " };
        if l.is_empty() && buf.is_empty() { out.push((prompt, Reply::Text(String::new()), String::new())); continue; }
        buf += l;
        buf.push('\n');
        let r = match parse::parse(&buf) {
            _ if WRONG.contains(&buf.trim_end()) => Reply::Rejected(vec![]),
            // an error which no continuation removes
            None if buf.contains("\n l.push") && !it.globals.contains_key("l") => Reply::Rejected(vec!["l".into()]),
            None => Reply::More,
            Some(p) => {
                let known: Vec<String> = it.globals.keys().cloned().collect();
                let errs = check::check_after(&p, natives::names(), &known);
                if !check::structure(&p).is_empty() { Reply::Rejected(vec![]) }
                else if let Some(f) = check::used_fields(&p).into_iter().find(|f| !it.fields.contains(f) && !check::fields(&p).contains(f)) { Reply::Rejected(vec![f]) }
                else if !errs.is_empty() { Reply::Rejected(errs.iter().map(|e| e.name().to_string()).collect()) }
                else {
                    let r = it.input(&p);
                    let mut t = std::mem::take(&mut it.out);
                    match r {
                        Ok(v) => { if let Some(v) = v { t += &value::to_str(&v); t.push('\n'); } Reply::Text(t) }
                        Err(Er::Skip) => Reply::Unknown,
                        Err(Er::Exit) => Reply::End(t),
                        Err(e) => Reply::Failure(t, e)
                    }
                }
            }
        };
        let text = buf.clone();
        if !matches!(r, Reply::More) { buf.clear(); }
        let stop = matches!(r, Reply::Unknown | Reply::End(_));
        out.push((prompt, r, text));
        if stop { break; }
    }
    out
}

/// The text is a sequence of reports about texts of the session
fn reports(t: &str, texts: &[&str]) -> Result<Vec<c16::Diag>, String> {
    let mut e = String::new();
    let t = t.strip_suffix('\n').unwrap_or(t);
    for s in texts.iter().rev() { match c16::diagnostics(t, s, "<stdin>") { Ok(d) => return Ok(d), Err(x) => e = x } }
    Err(e)
}

pub(super) fn judge(cx: &mut Cx, lines: Vec<String>, note: &str) {
    if cx.memory { return super::c23::session(cx, lines, note); }
    let exp = simulate(&lines);
    let known = exp.len();
    let i = Input::Repl { lines };
    let o = match cx.exec(&i) { Some(o) => o, None => return };
    let lines = match &i { Input::Repl { lines } => lines, _ => return };
    cx.fresh(lines.join("\n").as_bytes());
    cx.transitions += 1;
    if o.end == End::Panic { return cx.fail(&i, note, "the session continues".into(), &o); }
    cx.validated += 1;
    let got: Vec<&str> = o.out.split('\u{1}').skip(1).collect();
    let texts: Vec<&str> = exp.iter().map(|e| e.2.as_str()).collect();
    let at = |k: usize, m: String| format!("at line {} `{}`: {}", k + 1, lines[k], m);
    for (k, (prompt, r, text)) in exp.iter().enumerate() {
        let g = match got.get(k) { Some(g) => *g, None => return cx.fail(&i, note, at(k, "the session continues".into()), &o) };
        let g = match g.strip_prefix(prompt) { Some(g) => g, None => return cx.fail(&i, note, at(k, format!("the prompt is `{}`", prompt)), &o) };
        match r {
            Reply::More => { cx.stat("incomplete inputs", 1); if !g.is_empty() { return cx.fail(&i, note, at(k, "the input is incomplete".into()), &o); } }
            Reply::Text(t) => { cx.stat("inputs executed", 1); if g != t { return cx.fail(&i, note, at(k, format!("`{}`", t)), &o); } }
            Reply::End(t) => { if g != t || got.len() != k + 1 || o.end != End::Exit { return cx.fail(&i, note, at(k, format!("`{}`, and the end of the session", t)), &o); } }
            Reply::Unknown => { cx.stat("not judged", 1); return; }
            Reply::Rejected(names) => {
                cx.stat("inputs rejected", 1);
                if !names.iter().all(|n| g.contains(&format!("'{}'", n))) || g.is_empty() { return cx.fail(&i, note, at(k, format!("rejected, naming {:?}", names)), &o); }
                if let Err(e) = reports(g, &[text]) { return cx.fail(&i, note, at(k, format!("a well formed report ({})", e)), &o); }
            }
            Reply::Failure(t, e) => {
                cx.stat("inputs that failed", 1);
                let ok = g.strip_prefix(t.as_str()).filter(|g| match e { Er::Msg(m) => g.lines().next() == m.lines().next(), Er::Prefix(m) => g.starts_with(m.as_str()), _ => true });
                let g = match ok { Some(g) => g, None => return cx.fail(&i, note, at(k, format!("`{}` and the error {:?}", t, e)), &o) };
                if !g.contains("(<eval>)") { if let Err(e) = reports(g, &texts[..k + 1]) { return cx.fail(&i, note, at(k, format!("a well formed report ({})", e)), &o); } }
            }
        }
    }
    if known == lines.len() && got.len() != known { cx.fail(&i, note, "as many prompts as lines".into(), &o); }
}

fn lines(s: &[&str]) -> Vec<String> { s.iter().flat_map(|s| s.split('\n')).map(String::from).collect() }

const INPUTS: &[&str] = &[
    "let a = 1", "let b = [a]", "let l = []", "a += 1", "l.push(a)", "fn f() { a += 10; a }", "f()", "l",
    "fn h(x) {\n let y = x\n fn() { y += 1; y }\n}", "let c = h(5)", "c()", "[a, 'x']; nil",
    // failures, at various depths
    "let b = 1 / 0", "let a = 2; let b = a / 0; let d = 3", "if true { let x = 5; l.push(fn() { x += 1; x }); 1 / 0 }",
    "for i in range(3) { let k = i; l.push(fn() { k += 1; (i, k) }); if i == 1 { l[9] } }", "l.push(h(3)); h(1)(2)", "print('p', ...[1, l[7]])", "[1, [2, a, nil - 1]]", "[3, 4] . map(fn(x) { l.push(fn() -> x); x / (4 - x) })",
    "fn r(n) { let z = n; l.push(fn() { z += 1; z }); if n == 0 { nil.zz } else { 1 + r(n - 1) } }", "r(2)", "assert a == 2 : 'no'",
    // compile errors
    "let a = )", "zz + 1", "let b = 3; let b = 4", "fn g() { yy }; let b = 5", "struct S(v, v)", "if a == 1 { break }", "let (d\n1)", "a = 'x' ]",
    "l . map(fn(x) -> x())", "do {\n let x = 7\n l.push(fn() -> x)\n}", "l = [] ; nil", "eval('3 + 4')", "eval('3 +')",
    "struct S(v) {\n fn m(self) -> v\n}", "let s = S(3)", "s->v = a", "s->m()", "// nothing", "", "exit", "'one\ntwo'", "let (p, q) = (1, 2)", "p, q = q, p", "l, 1", "fn() -> 5", "a;",
];
/// Inputs which are no programs, however they continue
const WRONG: &[&str] = &["let a = )", "let (d\n1)", "a = 'x' ]", "struct S(v, v)", "let zz = )", "}"];
const PROBES: &[&str] = &["a", "l . len", "l . map(fn(x) -> x())", "b", "let b = 77", "b", "c()", "f()", "let zz = 6", "(a, b, zz)", "l . map(fn(x) -> x())", "let w = h(1); w() + w()", "b"];

fn run(cx: &mut Cx) {
    let n = cx.tier.pick(3, 4);
    cx.explore("all sequences of inputs, and probes", |ch| {
        let k = 1 + ch.pick(n);
        let mut v: Vec<&str> = (0..k).map(|_| *ch.of(INPUTS)).collect();
        // `l, 1` is a statement; sessions begin with the declarations most inputs need, or with none
        match ch.pick(3) { 0 => v.insert(0, "let a = 1, l = []"), 1 => { v.insert(0, "let l = []"); v.insert(1, INPUTS[8]); } _ => {} }
        // a second declaration over several lines is rejected at its first line
        if ["fn h", "struct S(v) "].iter().any(|d| v.iter().filter(|i| i.starts_with(d)).count() > 1) { return None; }
        v.extend(PROBES);
        Some(lines(&v))
    }, |cx, s| judge(cx, s, "history"));
    let n = cx.tier.pick(4, 6);
    cx.explore("longer sequences of fewer inputs", |ch| {
        let few = [1, 5, 7, 8, 12, 13, 14, 19, 20, 21, 24, 25, 31];
        let k = 3 + ch.pick(n - 2);
        let mut v: Vec<&str> = vec!["let a = 1, l = []"];
        for _ in 0..k { v.push(INPUTS[*ch.of(&few)]); }
        // a second declaration over several lines is rejected at its first line
        if ["fn h", "struct S(v) "].iter().any(|d| v.iter().filter(|i| i.starts_with(d)).count() > 1) { return None; }
        v.extend(PROBES);
        Some(lines(&v))
    }, |cx, s| judge(cx, s, "history"));
    continuation(cx);
    located(cx);
}

/// Statements whose gaps between tokens become ends of lines
const SPLIT: &[&str] = &["let b = ( 1 + 2 ) * a", "fn f ( x , y ) -> x + y", "fn f ( x ) { let y = x ; y }", "if a == 1 { print ( 2 ) } else { print ( 3 ) }", "while a < 3 { a += 1 }", "[ 1 , [ 2 , a ] ]", "{ 1 : 2 , 3 : a }", "for i in range ( 2 ) { print ( i ) }", "do { a += 1 } while a < 3", "struct S ( x , y ) { fn m ( self ) -> x }", "module m { fn g ( ) -> 5 }", "print ( 'x' , if a then 1 else 2 )", "l [ 0 ]", "l [ : 1 ]", "assert a : 'msg'", "l [ 0 ] = 7", "a , l = l , a", "fn ( x ) -> x", "let f = fn ( x ) { x } ; f ( 2 )", "'a\nb' . print", "/* c\nd */ a", "loop { if a > 3 { break } a += 1 }", "not a", "- a", "a . print", "[ 1 ] . map ( + 1 ) . map ( * 2 )", "print ( ... [ 1 , 2 ] )", "@ memoize fn g ( x ) -> x", "if a { } elif l { a } else { l }", "let x , y = [ 1 , 2 ]", "eval ( '1 + 2' )", "a is int and not nil"];

fn continuation(cx: &mut Cx) {
    let all = cx.thorough();
    cx.explore("inputs over several lines", |ch| {
        let t = *ch.of(SPLIT);
        let toks: Vec<&str> = t.split(' ').collect();
        let mut s = String::new();
        let mut cuts = 0;
        // quick: at most three line ends, or all of them
        let every = ch.flag();
        for (k, x) in toks.iter().enumerate() {
            if k > 0 { if every || ((all || cuts < 3) && ch.flag()) { s.push('\n'); cuts += 1; } else { s.push(' '); } }
            s += x;
        }
        if all && cuts > 7 && !every { return None; }
        let mut v = vec!["let a = 1, l = [1, 2]"];
        v.extend(s.split('\n'));
        v.extend(["a", "l"]);
        let v: Vec<String> = v.iter().map(|s| s.to_string()).collect();
        // the remainder of an input that is complete before its end must make sense, too
        let mut buf = String::new();
        for l in &v { buf += l; buf.push('\n'); if parse::parse(&buf).is_some() { buf.clear(); } }
        if !buf.is_empty() { return None; }
        Some(v)
    }, |cx, s| judge(cx, s, "continuation"));
}

/// Failures in functions which were declared by earlier inputs
fn located(cx: &mut Cx) {
    cx.explore("errors in functions of earlier inputs", |ch| {
        let before = ["let u = 1", "fn k() {\n 1 }", "1 / 0", "let zz = )", "// c", "'a\nb\nc'", "eval('1 + 1')", "eval('1 / 0')", "eval('1 +')", ""];
        let def = *ch.of(&["fn f(x) {\n let y = x\n @1 / 0@\n}", "fn f(x) -> @nil + x@", "fn f(x) {\n [1, 2] . map(fn(z) -> z)\n\n @x[3]@ }", "let f = fn(x) {\n x . map(\n  fn(z) ->\n  @nil + z@) }", "fn f(x) {\n\n fn h() -> x\n @h()(9)@\n}"]);
        let call = *ch.of(&["f([1])", "if true {\n print(1)\n f([1])\n}", "let q = [\n 1,\n f([1])\n]", "[[1]]\n. map(f)", "[f] . map(fn(z) {\n z([1])\n})"]);
        let (a, b, c) = (*ch.of(&before), *ch.of(&before), *ch.of(&before));
        Some((vec![a.to_string(), def.to_string(), b.to_string(), call.to_string(), c.to_string(), call.replace("q", "q2")], def, call))
    }, |cx, (v, def, call)| {
        let at: usize = def.split('@').next().unwrap().matches('\n').count() + 1;
        let line = def.replace('@', "").split('\n').nth(at - 1).unwrap().to_string();
        let lines: Vec<String> = v.iter().flat_map(|s| s.replace('@', "").split('\n').map(String::from).collect::<Vec<_>>()).collect();
        // where the last line of each call is
        let ends: Vec<usize> = [4, 6].iter().map(|n| v[..*n].iter().map(|s| s.split('\n').count()).sum::<usize>() - 1).collect();
        let i = Input::Repl { lines };
        let o = match cx.exec(&i) { Some(o) => o, None => return };
        if let Input::Repl { lines } = &i { cx.fresh(lines.join("\n").as_bytes()); }
        cx.transitions += 1;
        if o.end != End::Done { return cx.fail(&i, "located", "the session continues".into(), &o); }
        let got: Vec<&str> = o.out.split('\u{1}').skip(1).collect();
        let site = call.split("f(").next().unwrap().matches('\n').count() + 1;
        cx.validated += 1;
        // the call may be complete before its last line when it continues on the next
        if call.contains("\n.") { return; }
        for e in ends {
            let g = got.get(e).copied().unwrap_or("");
            let t = trace_lines(g);
            let deep = call.contains("z(");
            let exp_last = if deep { 1 } else { site };
            let ok = g.contains(&format!("\n  at: line {} (<stdin>)", at)) && g.contains(&format!("\n{} | {}\n", at, line)) && !t.is_empty() && t.iter().any(|x| x.0.starts_with("fn f(") || x.0.starts_with("fn _(")) && t.last().unwrap().1 == exp_last;
            if !ok { return cx.fail(&i, "located", format!("at line {} of the session: the error in line {} `{}`, called from line {}", e + 1, at, line, exp_last), &o); }
        }
    });
}

fn trace_lines(s: &str) -> Vec<(String, usize)> { c18::trace(s).unwrap_or_default() }
