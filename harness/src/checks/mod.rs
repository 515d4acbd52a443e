//! One module per property
pub use crate::engine::{Cx, Meta};
pub use crate::model::ast::{Printer, Stmt};
pub use crate::model::interp::{self, Er, Outcome};
pub use crate::runner::{End, Input, Obs};

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;

pub const ALL: &[&Meta] = &[&c01::META, &c02::META, &c03::META, &c04::META, &c05::META, &c06::META, &c07::META, &c08::META, &c09::META, &c10::META, &c11::META, &c12::META, &c13::META, &c14::META, &c15::META, &c16::META, &c17::META, &c18::META, &c19::META, &c20::META, &c21::META, &c22::META, &c23::META, &c24::META, &c25::META, &c26::META, &c27::META];

pub fn find(id: &str) -> Option<&'static Meta> { ALL.iter().copied().find(|m| m.id == id) }

/// Does the observation agree with the prediction? None: agrees. Some(expected): what was predicted.
pub fn disagree(m: &Outcome, o: &Obs) -> Option<String> {
    let exp = |end: &str| format!("stdout: {}\n{}", m.out, end);
    let ok = match &m.end {
        Ok(()) | Err(Er::Exit) => o.ok(),
        Err(Er::Msg(s)) => o.end == End::Error && o.first() == s.lines().next().unwrap_or(""),
        Err(Er::Prefix(s)) => o.end == End::Error && o.first().starts_with(s.as_str()),
        Err(Er::Any) => o.end == End::Error,
        Err(Er::Skip) => return if o.end == End::Panic { Some("a result or an error report".into()) } else { None },
    };
    if ok && o.out == m.out { return None; }
    Some(match &m.end {
        Ok(()) => exp("end: normal"),
        Err(Er::Exit) => exp("end: exit"),
        Err(Er::Msg(s)) => exp(&format!("end: error `{}`", s)),
        Err(Er::Prefix(s)) => exp(&format!("end: error `{}...`", s)),
        _ => exp("end: some error report"),
    })
}

/// Execute one program on the model and on the implementation, and compare
pub fn conform(cx: &mut Cx, p: &[Stmt], pr: Printer, opt: bool, note: &str) {
    let src = pr.program(p);
    if cx.opt_compare { return c14::compare(cx, src, note); }
    if cfg!(debug_parse) { match crate::model::parse::parse(&src) { Some(q) => if pr.program(&q) != src { eprintln!("REPARSE\n{}\n{}", src, pr.program(&q)); }, None => eprintln!("NOPARSE {}", src) } }
    let m = interp::run(p);
    conform_text(cx, src, opt, &m, note);
}

/// Parse the text with the reference parser, run the reference evaluator, and compare with the implementation
pub fn conform_src(cx: &mut Cx, src: String, opt: bool, note: &str) { if cx.opt_compare { return c14::compare(cx, src, note); } let m = predict(&src); conform_text(cx, src, opt, &m, note); }

/// What the reference model says about a program text
pub fn predict(src: &str) -> Outcome {
    match crate::model::parse::parse(src) {
        Some(p) => interp::run(&p),
        None => { if std::env::var("CMC_TIME").is_ok() { eprintln!("not parsed by the reference parser: {}", src.replace('\n', "\\n")); } Outcome { out: String::new(), end: Err(Er::Skip) } }
    }
}

/// All strings obtained by replacing each `$k` of the template by one of the k-th list of alternatives
pub fn fill(ch: &mut crate::engine::Ch, template: &str, alts: &[&[&str]]) -> String {
    let mut s = template.to_string();
    for (k, a) in alts.iter().enumerate().rev() {
        let hole = format!("${}", k);
        if s.contains(&hole) { s = s.replace(&hole, ch.of::<&str>(*a)); }
    }
    s
}

pub fn conform_text(cx: &mut Cx, src: String, opt: bool, m: &Outcome, note: &str) {
    if cx.opt_compare { return c14::compare(cx, src, note); }
    let i = Input::Run { src, opt, stdin: String::new() };
    let o = match cx.exec(&i) { Some(o) => o, None => return };
    if let Input::Run { src, .. } = &i { cx.fresh(src.as_bytes()); }
    cx.transitions += 1;
    if m.end == Err(Er::Skip) { cx.stat("model declined to predict (only crashes are detected)", 1); } else { cx.validated += 1; }
    match disagree(m, &o) {
        Some(e) => cx.fail(&i, note, e, &o),
        None => if let Input::Run { src, .. } = &i { cx.sample(format!("{} => {} {}", src, o.out, o.first())) },
    }
}
