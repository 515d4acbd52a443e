//! Runs the real implementation (compiler + VM, REPL, highlighter) and records everything observable.

use std::cell::RefCell;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

use cordy_sys::repl::{ReadResult, Repl, RunResult};
use cordy_sys::syntax::{self, Formatter};
use cordy_sys::util::{Noop, SharedWrite};
use cordy_sys::vm::{ExitType, VirtualMachine};
use cordy_sys::{compiler, ScanTokenType, SourceView};

#[derive(Clone, Debug, PartialEq)]
pub enum Input {
    /// Compile and run a program
    Run { src: String, opt: bool, stdin: String },
    /// Only compile a program
    Compile { src: String, opt: bool },
    /// Feed lines to an interactive session
    Repl { lines: Vec<String> },
    /// Highlight `text`, given a `prefix` already in the buffer
    Hl { prefix: String, text: String },
    /// Run the executable in a directory of its own which contains the files. `{ffi}` in arguments stands for the directory of
    /// the native modules, U+FFFD in the standard input for an invalid byte.
    Cli { args: Vec<String>, env: Vec<(String, String)>, stdin: String, files: Vec<(String, String)> },
}

impl Input {
    pub fn run<S: Into<String>>(src: S) -> Input { Input::Run { src: src.into(), opt: false, stdin: String::new() } }
    pub fn opt<S: Into<String>>(src: S) -> Input { Input::Run { src: src.into(), opt: true, stdin: String::new() } }

    pub fn fields(&self) -> (String, Vec<&str>) {
        match self {
            Input::Run { src, opt, stdin } => (format!("run opt={}", *opt as u8), vec![src, stdin]),
            Input::Compile { src, opt } => (format!("compile opt={}", *opt as u8), vec![src]),
            Input::Repl { lines } => (String::from("repl"), lines.iter().map(|s| s.as_str()).collect()),
            Input::Hl { prefix, text } => (String::from("hl"), vec![prefix, text]),
            Input::Cli { args, env, stdin, files } => {
                let mut f: Vec<&str> = vec![stdin];
                for (k, v) in env.iter().chain(files) { f.push(k); f.push(v); }
                f.extend(args.iter().map(|a| a.as_str()));
                (format!("cli env={} files={}", env.len(), files.len()), f)
            }
        }
    }

    pub fn serialize(&self, buf: &mut Vec<u8>) {
        let (h, f) = self.fields();
        buf.extend_from_slice(format!("{} fields={}\n", h, f.len()).as_bytes());
        for x in f {
            buf.extend_from_slice(format!("{}\n", x.len()).as_bytes());
            buf.extend_from_slice(x.as_bytes());
            buf.push(b'\n');
        }
    }

    pub fn parse(buf: &[u8]) -> Option<(Input, usize)> {
        let mut pos = 0;
        let line = |pos: &mut usize| -> Option<String> {
            let e = buf[*pos..].iter().position(|b| *b == b'\n')? + *pos;
            let s = String::from_utf8_lossy(&buf[*pos..e]).to_string();
            *pos = e + 1;
            Some(s)
        };
        let head = line(&mut pos)?;
        let n: usize = head.split("fields=").nth(1)?.parse().ok()?;
        let mut f: Vec<String> = Vec::new();
        for _ in 0..n {
            let len: usize = line(&mut pos)?.parse().ok()?;
            f.push(String::from_utf8_lossy(buf.get(pos..pos + len)?).to_string());
            pos += len + 1;
        }
        let opt = head.contains("opt=1");
        let kind = head.split(' ').next()?;
        let inp = match kind {
            "run" => Input::Run { src: f[0].clone(), opt, stdin: f[1].clone() },
            "compile" => Input::Compile { src: f[0].clone(), opt },
            "repl" => Input::Repl { lines: f },
            "cli" => {
                let n = |k: &str| head.split(k).nth(1).and_then(|s| s.split(' ').next()).and_then(|s| s.parse::<usize>().ok());
                let (e, g) = (n("env=")?, n("files=")?);
                let mut it = f.into_iter();
                let stdin = it.next()?;
                let mut two = |n: usize| (0..n).map(|_| Some((it.next()?, it.next()?))).collect::<Option<Vec<_>>>();
                let (env, files) = (two(e)?, two(g)?);
                Input::Cli { args: it.collect(), env, stdin, files }
            }
            "hl" => Input::Hl { prefix: f[0].clone(), text: f[1].clone() },
            _ => return None,
        };
        Some((inp, pos))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End { Done, Exit, Error, Compile, Panic }

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub end: End,
    pub out: String,
    /// Full error report (runtime error, compile errors joined by newline, or panic message)
    pub err: String,
}

impl Obs {
    pub fn first(&self) -> &str { self.err.lines().next().unwrap_or("") }
    pub fn canon(&self) -> String { format!("end: {:?}\nstdout: {}\nreport: {}\n", self.end, self.out, self.err) }
    pub fn ok(&self) -> bool { matches!(self.end, End::Done | End::Exit) }
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }

fn guarded(f: impl FnOnce() -> Obs, out: &SharedWrite) -> Obs {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(_) => {
            let text = match out.inner().try_borrow() { Ok(b) => String::from_utf8_lossy(&b).to_string(), Err(_) => String::new() };
            Obs { end: End::Panic, out: text, err: PANIC.with(|p| p.borrow().clone()) }
        }
    }
}

fn text(w: &SharedWrite) -> String {
    String::from_utf8_lossy(&w.inner().borrow()).to_string()
}

/// Execute, and the blocks and bytes that are allocated after it and were not before it
pub fn measure(input: &Input, poison: bool) -> (Obs, i64, i64) {
    use crate::alloc::{live, POISON};
    PANIC.with(|p| p.borrow_mut().clear());
    let (b, n) = live();
    POISON.store(poison, std::sync::atomic::Ordering::Relaxed);
    let o = execute(input);
    POISON.store(false, std::sync::atomic::Ordering::Relaxed);
    let (c, m) = live();
    let own = |s: &String| ((s.capacity() > 0) as i64, s.capacity() as i64);
    let (x, y) = (own(&o.out), own(&o.err));
    (o, c - b - x.0 - y.0, m - n - x.1 - y.1)
}

pub fn execute(input: &Input) -> Obs {
    let w = SharedWrite::new();
    let w2 = w.clone();
    match input {
        Input::Run { src, opt, stdin } => guarded(move || {
            let view = SourceView::new(String::from("<t>"), src.clone());
            let c = match compiler::compile(*opt, &view) {
                Ok(c) => c,
                Err(e) => return Obs { end: End::Compile, out: String::new(), err: e.join("\n") }
            };
            let mut vm = VirtualMachine::new(c, view, Cursor::new(stdin.clone().into_bytes()), w2.clone(), Noop);
            let e = vm.run_until_completion();
            let (end, err) = match &e {
                ExitType::Exit => (End::Exit, String::new()),
                ExitType::Return | ExitType::Yield => (End::Done, String::new()),
                ExitType::Error(e) => (End::Error, vm.view().format(e)),
            };
            drop(e);
            drop(vm);
            Obs { end, out: text(&w2), err }
        }, &w),
        Input::Compile { src, opt } => guarded(move || {
            let view = SourceView::new(String::from("<t>"), src.clone());
            match compiler::compile(*opt, &view) {
                Ok(_) => Obs { end: End::Done, out: String::new(), err: String::new() },
                Err(e) => Obs { end: End::Compile, out: String::new(), err: e.join("\n") }
            }
        }, &w),
        Input::Repl { lines } => guarded(move || {
            use std::io::Write;
            let mut w3 = w2.clone();
            let mut repl = Repl::new(w2.clone(), Noop);
            let mut end = End::Done;
            for l in lines {
                // the prompt that the session shows is part of the observation
                write!(w3, "\u{1}{}", repl.prompt()).unwrap();
                match repl.run(ReadResult::Ok(l.clone())) {
                    RunResult::Ok => {}
                    RunResult::Exit => { end = End::Exit; break }
                    RunResult::Error(_) => { end = End::Error; break }
                }
            }
            Obs { end, out: text(&w2), err: String::new() }
        }, &w),
        Input::Cli { args, env, stdin, files } => cli(args, env, stdin, files),
        Input::Hl { prefix, text } => guarded(move || {
            let mut f = Mark(String::new());
            syntax::scan(text.clone(), prefix, &mut f);
            let mut b = syntax::BlockingFormatter::new(Mark(String::new()));
            syntax::scan(text.clone(), prefix, &mut b);
            Obs { end: End::Done, out: format!("{}\u{4}{}", f.0, b.fmt.0), err: String::new() }
        }, &w),
    }
}

/// Highlighter back-end: `\u{1}Type\u{2}` begins, `\u{3}` ends
struct Mark(String);

impl Formatter for Mark {
    fn begin(&mut self, ty: ScanTokenType) { self.0.push('\u{1}'); self.0.push_str(ty_name(ty)); self.0.push('\u{2}'); }
    fn end(&mut self, _: ScanTokenType) { self.0.push('\u{3}') }
    fn push(&mut self, c: char) { self.0.push(c) }
}

fn ty_name(ty: ScanTokenType) -> &'static str {
    match ty {
        ScanTokenType::Keyword => "keyword",
        ScanTokenType::Constant => "constant",
        ScanTokenType::Native => "native",
        ScanTokenType::Type => "type",
        ScanTokenType::Number => "number",
        ScanTokenType::String => "string",
        ScanTokenType::Syntax => "syntax",
        ScanTokenType::Blank => "blank",
        ScanTokenType::Comment => "comment",
    }
}

/// Run the executable. The files which it left follow the standard error, each after U+0004.
fn cli(args: &[String], env: &[(String, String)], stdin: &str, files: &[(String, String)]) -> Obs {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let var = |n: &str| std::env::var(n).unwrap_or_default();
    let dir = std::path::PathBuf::from(var("CMC_VERIF")).join("out").join(format!("cli-{}", std::process::id()));
    let bad = |m: String| Obs { end: End::Panic, out: String::new(), err: m };
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = std::fs::create_dir_all(&dir) { return bad(format!("scratch directory: {}", e)); }
    for (n, t) in files { let _ = std::fs::write(dir.join(n), t); }
    let mut c = Command::new("timeout");
    c.arg("20").arg(var("CMC_CLI")).args(args.iter().map(|a| a.replace("{ffi}", &var("CMC_FFI"))));
    c.current_dir(&dir).env_clear().envs(env.iter().cloned()).env("PATH", "/usr/bin:/bin").env("TERM", "xterm");
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = match c.spawn() { Ok(p) => p, Err(e) => return bad(format!("the executable does not start: {}", e)) };
    let mut bytes = Vec::new();
    for c in stdin.chars() { if c == '\u{fffd}' { bytes.push(0xff); } else { bytes.extend_from_slice(c.to_string().as_bytes()); } }
    // no more than the first 16 MB, then the pipe is closed and the process ends
    fn read_all<R: std::io::Read + Send + 'static>(r: Option<R>) -> std::thread::JoinHandle<Vec<u8>> {
        std::thread::spawn(move || { let mut v = Vec::new(); if let Some(r) = r { let _ = std::io::Read::read_to_end(&mut std::io::Read::take(r, 16 << 20), &mut v); } v })
    }
    let (so, se) = (read_all(p.stdout.take()), read_all(p.stderr.take()));
    if let Some(mut i) = p.stdin.take() { let _ = i.write_all(&bytes); }
    let status = match p.wait() { Ok(s) => s, Err(e) => return bad(e.to_string()) };
    let (stdout, stderr) = (so.join().unwrap_or_default(), se.join().unwrap_or_default());
    let mut err = String::from_utf8_lossy(&stderr).to_string();
    let mut left: Vec<(String, String)> = std::fs::read_dir(&dir).map(|d| d.flatten().filter_map(|e| Some((e.file_name().to_str()?.to_string(), String::from_utf8_lossy(&std::fs::read(e.path()).ok()?).to_string()))).collect()).unwrap_or_default();
    left.sort();
    let _ = std::fs::remove_dir_all(&dir);
    let code = status.code();
    // crashes: a signal, a panic, or no end within 20 seconds
    let crash = matches!(code, None | Some(101 | 124..=255));
    if crash { err = format!("exit status {:?}\n{}", code, err); }
    for (n, t) in left { err += &format!("\u{4}{}\u{4}{}", n, t); }
    Obs { end: if crash { End::Panic } else { End::Done }, out: String::from_utf8_lossy(&stdout).to_string(), err }
}
