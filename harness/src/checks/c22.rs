//! C22: the executable and native modules. Combinations of options, programs and arguments; all short standard inputs and
//! histories of reads and writes; values of all shapes through native functions which are compiled with the project's header.
use super::*;

pub const META: Meta = Meta { id: "C22", run, assumptions: &["up to 2 options (3 in the thorough tier) before the file", "native values of nesting 2 with up to 3 elements", "the wording of messages about the command line, and exit statuses other than those of a crash, are not specified"] };

fn go(cx: &mut Cx, args: &[&str], env: &[(&str, &str)], stdin: &str, files: &[(&str, &str)]) -> Option<(Input, Obs)> {
    let own = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let i = Input::Cli { args: args.iter().map(|s| s.to_string()).collect(), env: own(env), stdin: stdin.into(), files: own(files) };
    let o = cx.exec(&i)?;
    cx.fresh(format!("{:?}", i).as_bytes());
    cx.transitions += 1;
    cx.validated += 1;
    if o.end != End::Done { cx.fail(&i, "executable", "an ordinary end".into(), &o); return None; }
    Some((i, o))
}

/// The standard error, without the files
fn stderr(o: &Obs) -> &str { o.err.split('\u{4}').next().unwrap_or("") }

const PROGRAMS: &[&str] = &["print('out', 1 + 2)\n", "", "print('a')\nprint(", "print('before')\nfn f(x) {\n 1 / x\n}\nf(0)\nprint('after')\n", "print('x')\nexit\nprint('y')", "// only\r\nlet a = '<&>\"'\t// é\r\nprint(a, \"'\")\r\n", "fn g(n) -> if n < 2 then n else g(n - 1) + g(n - 2)\nfor i in range(9) { print(g(i)) }\nassert 1 == 2 : 'no'", "let x = y\nlet 3", "print(read_line())\nprint([1, 2, 3] . map(fn(x) { if x == 3 { exit }\n print(x)\n x }))", "range(500) . map(fn(x) -> print('line', x, '.' * 40)) ; [] [3]", "print('\u{7}'[0] == 'x')"];

#[derive(Default)]
struct Opts { mode: Option<&'static str>, opt: bool, bare: bool, nostyle: bool, skip: Vec<&'static str>, links: Vec<&'static str> }

fn options(cx: &mut Cx) {
    const O: &[&str] = &["-o", "--optimize", "--no-line-numbers", "-d", "--disassembly", "-f", "--format", "-h", "--help", "-v", "--version", "--format-no-style", "--format-no=keyword", "--format-no=string,comment", "--format-no=syntax,number,native,constant,type", "--format-no=bad", "-l m={ffi}/one.so", "--link k=nothing", "-l m=other", "-l m"];
    let n = cx.tier.pick(2, 3);
    cx.explore("options and programs", |ch| {
        let k = ch.pick(n + 1);
        let o: Vec<&'static str> = (0..k).map(|_| *ch.of(O)).collect();
        let f = if k < 3 { ch.pick(PROGRAMS.len() + 3) } else { *ch.of(&[0, 3, 5, PROGRAMS.len() + 1]) };
        let rest: &[&'static str] = *ch.of(&[&[][..], &["-d", "b"][..]]);
        Some((o, f, rest))
    }, |cx, (o, f, rest)| {
        let mut w = Opts::default();
        let mut bad = false;
        for x in &o {
            let mode = match *x { "-d" | "--disassembly" => "d", "-f" | "--format" => "f", "-h" | "--help" => "h", "-v" | "--version" => "v", _ => "" };
            if mode != "" { bad |= w.mode.is_some(); w.mode = Some(mode); }
            match *x {
                "-o" | "--optimize" => w.opt = true,
                "--no-line-numbers" => w.bare = true,
                "--format-no-style" => w.nostyle = true,
                "--format-no=bad" | "-l m" => bad = true,
                x if x.starts_with("--format-no=") => w.skip.extend(x["--format-no=".len()..].split(',')),
                x if x.contains("m=") => { bad |= w.links.contains(&"m"); w.links.push("m"); }
                x if x.contains("k=") => { bad |= w.links.contains(&"k"); w.links.push("k"); }
                _ => ()
            }
        }
        let mut args: Vec<&str> = o.iter().flat_map(|x| x.split(' ')).collect();
        let np = PROGRAMS.len();
        // a program, a file that does not exist, an option that is unknown, or no file
        let name = if f < np { "p x.cdy" } else if f == np { "none.cdy" } else if f == np + 1 { "--unknown" } else { "" };
        if name != "" { args.push(name); args.extend(rest); } else if !rest.is_empty() { return; }
        let src = if f < np { PROGRAMS[f] } else { "" };
        let stdin = if name == "" { "1 + 2\nprint('é')\nzz\nlet a = [\n7]\na\n" } else { "typed\n" };
        let (i, obs) = match go(cx, &args, &[], stdin, &[("p x.cdy", src)]) { Some(x) => x, None => return };
        let e = stderr(&obs).to_string();
        let exp = |cx: &mut Cx, m: String| cx.fail(&i, "options", m, &obs);
        if bad { if !obs.out.is_empty() || e.trim().is_empty() { exp(cx, "only a message on the standard error".into()); } return; }
        match w.mode {
            Some("h") => { if !obs.out.contains("--disassembly") || !e.is_empty() { exp(cx, "the help text".into()); } }
            Some("v") => { if !obs.out.starts_with("Cordy v") || obs.out.lines().count() != 1 || !e.is_empty() { exp(cx, "the version".into()); } }
            _ if name == "" => {
                let lines: Vec<String> = stdin.lines().map(String::from).collect();
                let s = crate::runner::execute(&Input::Repl { lines });
                let text: String = s.out.split('\u{1}').skip(1).map(|l| &l[4..]).collect();
                if obs.out.split_once('\n').map(|x| x.1) != Some(&text) || !e.is_empty() { exp(cx, format!("a session with the output {}", text)); }
            }
            _ if f >= np => { if !obs.out.is_empty() || !e.contains(name) { exp(cx, format!("a message about the file {}", name)); } }
            Some("d") => {
                let view = cordy_sys::SourceView::new(name.into(), src.into());
                let (out, err) = match cordy_sys::compiler::compile(w.opt, &view) { Ok(c) => (c.disassemble(&view, !w.bare).iter().map(|l| format!("{}\n", l)).collect(), String::new()), Err(e) => (String::new(), e.join("\n") + "\n") };
                if obs.out != out || e != err { exp(cx, format!("stdout: {}\nstderr: {}", out, err)); }
            }
            Some("f") => {
                let h = crate::runner::execute(&Input::Hl { prefix: String::new(), text: src.into() });
                let s = c21::sections(h.out.split_once('\u{4}').map_or("", |x| x.1)).unwrap_or_default();
                let want: Vec<(char, &str)> = s.iter().map(|x| (x.0, if w.skip.contains(&x.1) { "" } else { x.1 })).flat_map(|(c, t)| match c { '\r' => vec![], '\t' => vec![(' ', t); 4], c => vec![(c, t)] }).collect();
                let style = obs.out.starts_with("<style>");
                let body = obs.out.split_once("<pre>").and_then(|x| x.1.rsplit_once("</pre>")).map(|x| x.0);
                let got = body.and_then(html);
                let same = got.as_ref().map_or(false, |g| g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| a.0 == b.0 && (a.1 == b.1 || a.0.is_whitespace())));
                if style == w.nostyle || !e.is_empty() || !same { exp(cx, format!("the program with its parts marked: {:?}", want)); }
            }
            _ => {
                let r = crate::runner::execute(&Input::Run { src: src.into(), opt: w.opt, stdin: stdin.into() });
                let err = r.err.replace("(<t>)", &format!("({})", name));
                let err = if err.is_empty() { err } else { err + "\n" };
                if obs.out != r.out || e != err { exp(cx, format!("stdout: {}\nstderr: {}", r.out, err)); }
            }
        }
        cx.sample(format!("{:?} => {:?} {:?}", args, obs.out.lines().next(), e.lines().next()));
    });
}

/// The characters of formatted text and their kinds
fn html(t: &str) -> Option<Vec<(char, String)>> {
    let mut out = Vec::new();
    let (mut rest, mut ty) = (t, None::<String>);
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<span class=\"cordy-") {
            if ty.is_some() { return None; }
            let (n, r) = r.split_once("\">")?;
            ty = Some(n.into());
            rest = r;
        } else if let Some(r) = rest.strip_prefix("</span>") { ty.take()?; rest = r; } else {
            let (c, r) = match rest.chars().next()? {
                '<' => return None,
                '&' => { let (e, r) = rest[1..].split_once(';')?; (match e { "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "#39" => '\'', _ => return None }, r) }
                c => (c, &rest[c.len_utf8()..])
            };
            out.push((c, ty.clone().unwrap_or_default()));
            rest = r;
        }
    }
    if ty.is_some() { None } else { Some(out) }
}

/// The text with the escapes of `repr`
fn lit(s: &str) -> String { format!("'{}'", s.replace('\\', "\\\\").replace('\'', "\\'").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")) }

fn io(cx: &mut Cx) {
    let n = cx.tier.pick(4, 5);
    cx.explore("reading the standard input", |ch| {
        let k = ch.pick(n + 1);
        let t: String = (0..k).map(|_| *ch.of(&["a", "\n", "\r\n", "é ", "bc"])).collect();
        let m = 1 + ch.pick(3);
        let calls: Vec<bool> = (0..m).map(|_| ch.flag()).collect();
        Some((t, calls))
    }, |cx, (t, calls)| {
        let src: String = calls.iter().map(|c| if *c { "print(repr(read()))\n" } else { "print(repr(read_line()))\n" }).collect();
        let mut rest = t.as_str();
        let mut out = String::new();
        for c in &calls {
            let (x, r) = if *c { (rest.replace("\r\n", "\n"), "") } else { match rest.split_once('\n') { Some((x, r)) => (x.strip_suffix('\r').unwrap_or(x).to_string(), r), None => (rest.to_string(), "") } };
            rest = r;
            out += &format!("{}\n", lit(&x));
        }
        if let Some((i, o)) = go(cx, &["f.cdy"], &[], &t, &[("f.cdy", &src)]) { if o.out != out || !stderr(&o).is_empty() { cx.fail(&i, "standard input", format!("stdout: {}", out), &o); } }
    });
    cx.explore("input which is not text", |ch| Some((*ch.of(&["\u{fffd}", "ab\u{fffd}\n", "x\n\u{fffd}"]), *ch.of(&["read()", "read_line()", "(read_line() + read())", "[read_line(), read_line()]"]))), |cx, (t, c)| {
        let src = format!("print('start')\nprint(repr({}))\nprint('end')\n", c);
        if let Some((i, o)) = go(cx, &["f.cdy"], &[], t, &[("f.cdy", &src)]) {
            // the first line is text in the last input
            let ok = t.starts_with('x') && c == "read_line()";
            if !o.out.starts_with("start\n") || if ok { o.out != "start\n'x'\nend\n" } else { o.out != "start\n" || !o.err.starts_with("IOError") || !o.err.contains("line 2 (f.cdy)") } { cx.fail(&i, "standard input", "a runtime error at the read".into(), &o); }
        }
    });
    // histories of reads and writes
    const TEXTS: &[&str] = &["", "x", "a\nb\n", "a\r\nb", "é☃\t\"\\", "r\rs"];
    let n = cx.tier.pick(3, 4);
    cx.explore("histories of reads and writes of files", |ch| {
        let k = 1 + ch.pick(n);
        Some((0..k).map(|_| (ch.pick(3), ch.pick(TEXTS.len() + 1))).collect::<Vec<_>>())
    }, |cx, ops| {
        const NAMES: [&str; 3] = ["one", "é two", "no/file"];
        let mut files: [Option<&str>; 3] = [None, Some("old\r\ntext"), None];
        let (mut src, mut out, mut failed) = (String::new(), String::new(), false);
        for (f, t) in &ops {
            src += &if *t < TEXTS.len() { format!("write_text({}, {})\nprint('w')\n", lit(NAMES[*f]), lit(TEXTS[*t])) } else { format!("print(repr(read_text({})))\n", lit(NAMES[*f])) };
            if failed { continue; }
            if *t < TEXTS.len() { if *f == 2 { failed = true; } else { files[*f] = Some(TEXTS[*t]); out += "w\n"; } }
            else { match files[*f] { Some(t) => out += &format!("{}\n", lit(&t.replace("\r\n", "\n"))), None => failed = true } }
        }
        if let Some((i, o)) = go(cx, &["f.cdy"], &[], "", &[("f.cdy", &src), ("é two", "old\r\ntext")]) {
            let mut left: Vec<(&str, &str)> = NAMES.iter().zip(files).filter_map(|(n, f)| Some((*n, f?))).collect();
            left.push(("f.cdy", &src));
            left.sort();
            let left: String = left.iter().map(|(n, t)| format!("\u{4}{}\u{4}{}", n, t)).collect();
            let e = stderr(&o);
            if o.out != out || e.starts_with("IOError: ") != failed || (!failed && !e.is_empty()) || o.err[e.len()..] != left { cx.fail(&i, "files", format!("stdout: {} error: {} files: {}", out, failed, left), &o); }
        }
    });
    cx.explore("arguments and environment", |ch| {
        let k = ch.pick(4);
        let a: Vec<&str> = (0..k).map(|_| *ch.of(&["-o", "a", "", "é \"x\"", "--", "-h", "--link"])).collect();
        let e: Vec<(&str, &str)> = ["A", "B b"].iter().filter_map(|n| { let v = *ch.of(&["-", "", "1=2", "é\nx"]); if v == "-" { None } else { Some((*n, v)) } }).collect();
        Some((a, e))
    }, |cx, (a, e)| {
        let src = "print(repr(argv()))\nprint(repr(env('A')), repr(env('B b')), repr(env('C')))\nlet e = env()\nprint('A' in e, 'B b' in e, 'C' in e, e is dict)\nif 'A' in e { print(repr(e['A'])) }\nlet f = argv()\nf . push('more')\nprint(len(argv()) == len(f) or len(argv()) + 1 == len(f))\n";
        let get = |n: &str| e.iter().find(|x| x.0 == n).map(|x| lit(x.1));
        let nil = |x: Option<String>| x.unwrap_or("nil".into());
        let mut out = format!("[{}]\n{} {} nil\n{} {} false true\n", a.iter().map(|s| lit(s)).collect::<Vec<_>>().join(", "), nil(get("A")), nil(get("B b")), get("A").is_some(), get("B b").is_some());
        if let Some(x) = get("A") { out += &format!("{}\n", x); }
        out += "true\n";
        let mut args = vec!["f.cdy"];
        args.extend(&a);
        if let Some((i, o)) = go(cx, &args, &e, "", &[("f.cdy", src)]) { if o.out != out || !stderr(&o).is_empty() { cx.fail(&i, "arguments", format!("stdout: {}", out), &o); } }
    });
}

// ---------------------------------------------------------------------------------------------------- native modules

#[derive(Clone, Debug)]
enum N { Nil, Bool(bool), Int(i64), Str(String), Arr(bool, Vec<N>) }

impl N {
    /// In the language; and as it comes back, where all sequences are vectors
    fn source(&self, vectors: bool) -> String {
        match self {
            N::Nil => "nil".into(), N::Bool(b) => b.to_string(), N::Int(i) => i.to_string(), N::Str(s) => lit(s),
            N::Arr(l, v) => { let t = v.iter().map(|x| x.source(vectors)).collect::<Vec<_>>().join(", "); if *l && !vectors { format!("[{}]", t) } else { format!("vector([{}])", t) } }
        }
    }
    fn seen(&self) -> String { match self { N::Nil => "nil".into(), N::Bool(b) => b.to_string(), N::Int(i) => i.to_string(), N::Str(s) => format!("{}:{}", s.len(), s), N::Arr(_, v) => format!("[{}]", v.iter().map(|x| x.seen()).collect::<Vec<_>>().join(",")) } }
    fn recipe(&self) -> String { match self { N::Nil => "n".into(), N::Bool(b) => if *b { "t".into() } else { "f".into() }, N::Int(i) => format!("i{};", i), N::Str(s) => format!("s{}:{}", s.len(), s), N::Arr(_, v) => format!("[{}]", v.iter().map(|x| x.recipe()).collect::<String>()) } }
}

fn scalar(ch: &mut crate::engine::Ch, few: bool) -> N {
    match ch.pick(4) {
        0 => N::Nil,
        1 => N::Bool(ch.flag()),
        2 => N::Int(if few { *ch.of(&[7, -1]) } else { *ch.of(&[0, 1, -1, 255, 256, -129, 65536, 1 << 31, -(1 << 31), (1 << 32) + 5, (1 << 61) + 1, (1 << 62) - 1, -(1 << 62)]) }),
        _ => N::Str(if few { ch.of(&["", "é", "a longer string"]).to_string() } else { let n = ch.pick(20); let p = *ch.of(&["a", "é", "☃", "\n\t\"\\%s"]); p.repeat(n) }),
    }
}

const MODULE: &str = "native module m {\n fn show(x)\n fn echo(x)\n fn make(s)\n fn first(x, y)\n fn last(x, y)\n}\n";

fn values(cx: &mut Cx) {
    let n = cx.tier.pick(2, 3);
    cx.explore("values through native functions", |ch| {
        Some(match ch.pick(3) {
            0 => scalar(ch, false),
            1 => { let l = ch.flag(); let k = ch.pick(n + 1); N::Arr(l, (0..k).map(|_| scalar(ch, true)).collect()) }
            _ => {
                let l = ch.flag();
                let k = 1 + ch.pick(2);
                N::Arr(l, (0..k).map(|_| if ch.flag() { scalar(ch, true) } else { let l = ch.flag(); let k = ch.pick(n); N::Arr(l, (0..k).map(|_| scalar(ch, true)).collect()) }).collect())
            }
        })
    }, |cx, v| {
        let (s, vs) = (v.source(false), v.source(true));
        let src = format!("{}let x = {}\nprint(m->show(x))\nprint(repr(m->echo({})) == repr({}), m->echo({}) == {})\nprint(repr(x) == repr({}))\nlet y = m->make({})\nprint(repr(y) == repr({}), y == {})\nprint(m->show(m->echo(y)))\nprint(m->show(m->first({}, 'other')), m->show(m->last('other', {})), m->show(m->first({}, {})))\nprint([x, x] . map(m->show))\n", MODULE, s, s, vs, s, vs, s, lit(&v.recipe()), vs, vs, s, s, s, s);
        let d = v.seen();
        // the second of two strings is released by `first`
        let out = format!("{}\ntrue true\ntrue\ntrue true\n{}\n{} {} {}\n[{}, {}]\n", d, d, d, d, d, lit(&d), lit(&d));
        if let Some((i, o)) = go(cx, &["-l", "m={ffi}/one.so", "f.cdy"], &[], "", &[("f.cdy", &src)]) { if o.out != out || !stderr(&o).is_empty() { cx.fail(&i, "native values", format!("stdout: {}", out), &o); } else { cx.sample(format!("{} => {}", s, d)); } }
    });
    cx.explore("values which native functions cannot take", |ch| {
        let v = *ch.of(&["{1}", "{1: 2}", "heap([1])", "print", "fn(x) -> x", "range(3)", "1i", "rational(1, 2)", "S(1)", "S", "enumerate([1])", "(->a)", "'\0'", "'a\0b'", "'a much longer string\0'", "memoize(print)", "[1:]", "(+ 1)"]);
        let p = *ch.of(&["$", "[$]", "(1, $)", "[[2, $], 3]"]);
        let c = *ch.of(&["m->show(v)", "[v] . map(m->show)", "m->first(1, v)", "(fn() -> m->echo(v))()"]);
        Some((p.replace('$', v), c))
    }, |cx, (v, c)| {
        let src = format!("struct S(a)\n{}print(m->show(1))\nlet v = {}\nprint('v')\nprint({})\nprint('end')\n", MODULE, v, c);
        if let Some((i, o)) = go(cx, &["-l", "m={ffi}/one.so", "f.cdy"], &[], "", &[("f.cdy", &src)]) { if o.out != "1\nv\n" || !o.err.starts_with("OSError: ") { cx.fail(&i, "native values", "a runtime error at the call".into(), &o); } }
    });
}

/// The functions of the native module, in the language
const TWIN: &str = "fn d(v) { if v is nil { return 'nil' }\n if v is bool { return str(v) }\n if v is int { return str(v) }\n if v is str { return str(len(v)) + ':' + v }\n return '[' + (v . map(d) . join(',')) + ']' }\nmodule m {\n fn show0() -> ''\n fn show(x) -> d(x)\n fn show2(x, y) -> d(x) + ';' + d(y)\n fn showd(x, y = 7) -> d(x) + ';' + d(y)\n fn showv(x, *r) -> d(x) + ';' + d(r)\n fn showo(x, y?) -> d(x) + ';' + d(y)\n}\n";
const NATIVE: &str = "native module m {\n fn show0()\n fn show(x)\n fn show2(x, y)\n fn showd(x, y = 7)\n fn showv(x, *r)\n fn showo(x, y?)\n}\n";

fn calls(cx: &mut Cx) {
    cx.explore("calls of native functions", |ch| {
        let f = *ch.of(&["show0", "show", "show2", "showd", "showv", "showo"]);
        let a = *ch.of(&["", "1", "1, 'b'", "[1, 2], nil", "1, 2, 3", "...[]", "...[4]", "5, ...[6]", "...'ab', true", "1, ...[2, 3]", "1, 2, 3, 4"]);
        let u = *ch.of(&["print(m->$f($a))", "let f = m->$f\nprint(f($a))", "let r = m->$f($a)\nprint(r is function)\nif r is function { print(r('z')) }", "let r = m->$f(9)\nprint(r is function and r($a))", "print([[$a]] . map(m->$f))", "print([1, 2] . map(fn(x) -> m->$f(x, $a)))", "fn g(*x) -> m->$f(...x)\nprint(g($a))", "print([3, 1] . map(m->$f) . reduce(m->show2))", "print([0, m->$f($a), [m->$f($a)]])", "print(m->$f == m->$f, [m->$f, m->show] . map(fn(f) -> f == m->$f))", "print(memoize(m->$f)($a))", "if true { let z = [$a]\n let h = fn() { z . push(8)\n return m->$f($a) }\n print(h(), h(), z) }", "print(m->$f(m->$f($a)))", "print(m->$f . len)", "for i in range(2) { print(i, m->$f($a), i) }\nprint(m->$f(1, 2) . repr)"]);
        Some(u.replace("$f", f).replace("$a", a))
    }, |cx, u| {
        let exp = predict(&format!("{}{}\nprint('end')\n", TWIN, u));
        let src = format!("{}{}\nprint('end')\n", NATIVE, u);
        let (i, o) = match go(cx, &["-l", "m={ffi}/two.so", "f.cdy"], &[], "", &[("f.cdy", &src)]) { Some(x) => x, None => return };
        // how functions are shown is not specified
        if exp.end == Err(Er::Skip) || exp.out.contains("fn show") { cx.stat("model declined to predict (only crashes are detected)", 1); return; }
        let ok = match &exp.end { Ok(()) => stderr(&o).is_empty() && o.out == exp.out, _ => o.err.contains("at: line") && o.out == exp.out };
        if !ok { cx.fail(&i, "native calls", format!("stdout: {} end: {:?}", exp.out, exp.end), &o); }
    });
    // several modules and libraries
    let n = cx.tier.pick(3, 4);
    cx.explore("modules and libraries", |ch| {
        let links = *ch.of(&[("one", "two"), ("two", "one"), ("one", "one"), ("one", "-"), ("-", "two"), ("one", "none"), ("plain", "two"), ("one", "plain")]);
        let decl = *ch.of(&["native module a {\n fn id()\n fn count()\n fn show(x)\n}\nnative module b {\n fn count()\n fn missing()\n fn id()\n}\n", "struct S(u)\nnative module b {\n fn id()\n fn count()\n fn missing()\n}\nmodule c {\n fn id() -> 9\n}\nnative module a {\n fn show(x)\n fn count()\n fn id()\n}\n"]);
        let k = 1 + ch.pick(n);
        Some((links, decl, (0..k).map(|_| *ch.of(&["a->id()", "b->id()", "a->count()", "b->count()", "a->show('x')", "b->missing()"])).collect::<Vec<_>>()))
    }, |cx, (links, decl, calls)| {
        let lib = |m: &str| if m == "a" { links.0 } else { links.1 };
        let mut src = decl.to_string();
        let mut out = String::new();
        let (mut counts, mut failed) = ([0, 0], None);
        for c in &calls {
            src += &format!("print({})\n", c);
            if failed.is_some() { continue; }
            let (m, f) = c.split_once("->").unwrap();
            let l = lib(m);
            if matches!(l, "-" | "none" | "plain") || f == "missing()" { failed = Some(*c); continue; }
            let id = if l == "one" { 1 } else { 2 };
            out += &match f { "id()" => format!("{}\n", id), "count()" => { counts[id - 1] += 1; format!("{}\n", counts[id - 1]) } _ => "1:x\n".into() };
        }
        let mut args: Vec<String> = Vec::new();
        for (m, l) in [("a", links.0), ("b", links.1)] { if l != "-" { args.push("-l".into()); args.push(format!("{}={{ffi}}/{}.so", m, l)); } }
        args.push("f.cdy".into());
        let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        if let Some((i, o)) = go(cx, &args, &[], "", &[("f.cdy", &src)]) {
            let e = stderr(&o);
            if o.out != out || e.starts_with("OSError: ") != failed.is_some() || (failed.is_none() && !e.is_empty()) { cx.fail(&i, "modules", format!("stdout: {} error: {:?}", out, failed), &o); }
        }
    });
    cx.explore("errors of native functions", |ch| Some((*ch.of(&[("m->fail()", "failed on purpose"), ("m->check('x')", "args[0].ty == TY_INT"), ("m->check(3)", "x > 3"), ("m->check(4)", ""), ("m->check(9)", "")]), *ch.of(&["print($)", "print([1] . map(fn(x) -> $))", "fn f() {\n return $\n}\nprint(f())", "print([0, [1, $]])"]), ch.flag())), |cx, ((c, m), p, opt)| {
        let src = format!("native module m {{\n fn fail()\n fn check(x)\n}}\nprint('start')\n{}\nprint('end')\n", p.replace('$', c));
        let mut a = vec!["-l", "m={ffi}/one.so", "f.cdy"];
        if opt { a.insert(0, "-o"); }
        if let Some((i, o)) = go(cx, &a, &[], "", &[("f.cdy", &src)]) {
            let ok = if m == "" { stderr(&o).is_empty() && o.out.ends_with("\nend\n") && o.out.contains(if c.contains('9') { "true" } else { "false" }) } else { o.out == "start\n" && o.err.starts_with(&format!("OSError: {}", m)) && o.err.contains("f.cdy") };
            if !ok { cx.fail(&i, "native errors", if m == "" { "the result".into() } else { format!("the error {}", m) }, &o); }
        }
    });
}

/// Sessions through the executable are those of the library
fn sessions(cx: &mut Cx) {
    const L: &[&str] = &["let a = 1", "a", "fn f(x) {", "x + a }", "f(2)", "1 / 0", "let b = )", "'é\u{2603}'", "exit", "", "print(read_line())", "native module m {", "fn show(x)", "}", "m->show([a])"];
    let n = cx.tier.pick(3, 4);
    cx.explore("sessions", |ch| { let k = ch.pick(n + 1); Some((0..k).map(|_| *ch.of(L)).collect::<Vec<_>>()) }, |cx, l| {
        if l.contains(&"print(read_line())") || l.iter().any(|x| x.starts_with("m->")) { return; }
        // a function that calls itself without end exhausts the memory
        if l.windows(2).any(|w| w == ["fn f(x) {", "f(2)"]) { return; }
        let s = crate::runner::execute(&Input::Repl { lines: l.iter().map(|s| s.to_string()).collect() });
        let text: String = s.out.split('\u{1}').skip(1).map(|l| &l[4..]).collect();
        if let Some((i, o)) = go(cx, &[], &[], &l.iter().map(|s| format!("{}\n", s)).collect::<String>(), &[]) { if o.out.split_once('\n').map(|x| x.1) != Some(&text) || !stderr(&o).is_empty() { cx.fail(&i, "session", format!("the output {}", text), &o); } }
    });
}

fn run(cx: &mut Cx) {
    options(cx);
    io(cx);
    values(cx);
    calls(cx);
    sessions(cx);
}
