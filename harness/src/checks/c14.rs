//! C14: optimization changes nothing. Every program of a large family (the spaces of the other checks, and all expression
//! trees over the shapes the optimizer rewrites) is compiled and executed with and without optimization; output, final state
//! and error have to be the same. The one permitted difference, a constant operation that is certain to fail being reported
//! when compiling, is decided by the reference evaluator: the report has to be the error of a constant sub-expression.
use super::*;
use crate::engine::Ch;
use crate::model::ast::{Arg, BodyD, Expr, Pat, Style};

pub const META: Meta = Meta { id: "C14", run, assumptions: &["the programs are the spaces of C02 to C13 and the expression shapes listed in c14.rs up to their bounds", "error reports are compared by their first line (locations are judged by C18)"] };

pub fn compare(cx: &mut Cx, src: String, note: &str) {
    if cx.memory { return c23::program(cx, src, note); }
    if !cx.fresh(src.as_bytes()) { return; }
    let a = match cx.exec(&Input::Run { src: src.clone(), opt: false, stdin: String::new() }) { Some(o) => o, None => return };
    let i = Input::Run { src, opt: true, stdin: String::new() };
    let b = match cx.exec(&i) { Some(o) => o, None => return };
    cx.transitions += 1;
    cx.validated += 1;
    let src = match &i { Input::Run { src, .. } => src, _ => return };
    if a.out == b.out && a.end == b.end && a.first() == b.first() {
        cx.sample(format!("{} => {} {}", src, a.out, a.first()));
        return;
    }
    if b.end == End::Compile && b.out.is_empty() && a.end != End::Panic && permitted(src, &b.first()) {
        cx.stat("a constant operation certain to fail was reported when compiling", 1);
        return;
    }
    cx.fail(&i, note, format!("the same as without optimization:\n{}", a.canon()), &b);
}

/// Is this the error of some sub-expression that consists of constants only?
fn permitted(src: &str, first: &str) -> bool {
    let p = match crate::model::parse::parse(src) { Some(p) => p, None => return false };
    let mut ok = false;
    for s in &p {
        stmt(s, &mut |e| {
            if ok || matches!(e, Expr::Str(_) | Expr::Int(_)) { return; }
            if let Expr::Compose(_, f) | Expr::OpAssign(crate::model::ast::BinOp::Dot, _, f) = e { if let Expr::List(v) = &**f { ok |= v.len() != 1 && !v.iter().any(|a| a.unroll) && first.starts_with("ValueError"); } }
            if !constant(e) { return; }
            match interp::run(&[Stmt::Expr(e.clone())]).end {
                Err(Er::Msg(m)) => ok |= m.lines().next() == Some(first),
                Err(Er::Prefix(m)) => ok |= first.starts_with(&m),
                Err(Er::Any | Er::Skip) => ok = true,
                _ => {}
            }
        });
    }
    ok
}

fn constant(e: &Expr) -> bool {
    match e {
        Expr::Nil | Expr::Bool(_) | Expr::Int(_) | Expr::Imag(_) | Expr::Str(_) | Expr::OpFn(_) | Expr::OpUn(_) => true,
        Expr::Var(n) => crate::model::natives::find(n).is_some(),
        Expr::Un(_, a) | Expr::OpRight(_, a) | Expr::OpLeft(a, _) => constant(a),
        Expr::Bin(_, a, b) | Expr::Compose(a, b) => constant(a) && constant(b),
        Expr::If(a, b, c) => constant(a) && constant(b) && constant(c),
        Expr::Call(f, v, _) => constant(f) && v.iter().all(|a| !a.unroll && constant(&a.e)),
        Expr::Text(_, e) => constant(e),
        Expr::Cmp(a, v) => v.len() == 1 && constant(a) && constant(&v[0].1),
        _ => false,
    }
}

type F<'a> = &'a mut dyn FnMut(&Expr);

fn args(v: &[Arg], f: F) { for a in v { expr(&a.e, f); } }

fn pat(p: &Pat, f: F) { match p { Pat::Terms(t) => for p in t { pat(p, f) }, Pat::Target(e) => expr(e, f), _ => {} } }

fn fun(d: &crate::model::ast::FnDef, f: F) {
    for p in &d.params { if let crate::model::ast::ParamKind::Def(e) = &p.kind { expr(e, f) } }
    match &d.body { BodyD::Expr(e) => expr(e, f), BodyD::Block(b) => block(b, f) }
}

fn expr(e: &Expr, f: F) {
    f(e);
    match e {
        Expr::Un(_, a) | Expr::OpRight(_, a) | Expr::OpLeft(a, _) | Expr::GetField(a, _) | Expr::Text(_, a) => expr(a, f),
        Expr::Bin(o, a, b) => {
            // the operators are left associative, and a left operand that is itself an operation is visited as such
            let _ = o;
            expr(a, f);
            expr(b, f)
        }
        Expr::And(a, b) | Expr::Or(a, b) | Expr::Compose(a, b) | Expr::Index(a, b) | Expr::Assign(a, b) | Expr::OpAssign(_, a, b) => { expr(a, f); expr(b, f) }
        Expr::Cmp(a, v) => { expr(a, f); for (_, x) in v { expr(x, f) } if let [(o, b)] = &v[..] { f(&Expr::Bin(*o, a.clone(), Box::new(b.clone()))) } }
        Expr::If(a, b, c) => { expr(a, f); expr(b, f); expr(c, f) }
        Expr::Call(g, v, _) => { expr(g, f); args(v, f) }
        Expr::Slice(a, p) => { expr(a, f); for x in p.iter().flatten() { expr(x, f) } }
        Expr::SliceLit(p) => for x in p.iter().flatten() { expr(x, f) },
        Expr::List(v) | Expr::Vector(v) | Expr::Set(v) => args(v, f),
        Expr::Dict(v) => for (k, x) in v { expr(k, f); if let Some(x) = x { expr(x, f) } },
        Expr::Lambda(d) => fun(d, f),
        Expr::PatAssign(p, e) => { for p in p { pat(p, f) } expr(e, f) }
        _ => {}
    }
    // the operation that results when calls of partially applied operators are merged
    match e {
        Expr::Call(g, v, s) => if let Expr::Call(h, w, _) = &**g { f(&Expr::Call(h.clone(), w.iter().chain(v).cloned().collect(), *s)) },
        Expr::Compose(a, g) => if let Expr::Call(h, w, _) = &**g { f(&Expr::Call(h.clone(), w.iter().cloned().chain([Arg { unroll: false, e: (**a).clone() }]).collect(), Style::Paren)) },
        _ => {}
    }
}

fn block(b: &[Stmt], f: F) { for s in b { stmt(s, f) } }

fn stmt(s: &Stmt, f: F) {
    match s {
        Stmt::Expr(e) | Stmt::Return(Some(e)) => expr(e, f),
        Stmt::Let(v) => for (p, e) in v { pat(p, f); if let Some(e) = e { expr(e, f) } },
        Stmt::Fn(d, g) => { for e in d { expr(e, f) } fun(g, f) }
        Stmt::If(v, e) => { for (c, b) in v { expr(c, f); block(b, f) } if let Some(b) = e { block(b, f) } }
        Stmt::While(c, b, e) => { expr(c, f); block(b, f); if let Some(b) = e { block(b, f) } }
        Stmt::Do(b, c, e) => { block(b, f); if let Some(c) = c { expr(c, f) } if let Some(b) = e { block(b, f) } }
        Stmt::Loop(b) => block(b, f),
        Stmt::For(p, e, b, x) => { pat(p, f); expr(e, f); block(b, f); if let Some(b) = x { block(b, f) } }
        Stmt::Assert(a, b) => { expr(a, f); if let Some(b) = b { expr(b, f) } }
        Stmt::Struct(d) => for m in &d.methods { fun(m, f) },
        _ => {}
    }
}

// ------------------------------------------------------------------------------------------------ shapes the optimizer rewrites

const PRE: &str = "struct S(a, b)\nfn t(k, v) { print('t', k); return v }\nfn use(a, b) { return [a, b] }\n";

/// Variable declarations, in the scope the expressions are evaluated in
const VARS: &str = "let x = 3, y = 'q', xs = [4, 5, 6], g = use, n = nil";

const SCOPES: &[&str] = &["#\nprint(repr(@))\nprint(x, y, xs)\n", "fn body() { #\n print(repr(@))\n print(x, y, xs) }\nbody()\n", "fn body() { #\n fn in() { print(repr(@)) }\n in()\n print(x, y, xs) }\nbody()\n"];

/// Operands: constants, variables, operations that fail, effects
const OPERANDS: &[&str] = &["2", "'a'", "nil", "x", "xs", "(x - y)", "xs[9]", "late", "t(1, 2)", "(x = 7)", "(-y)", "t(2, xs)", "push(8, xs)", "use()", "(1 - 'a')", "[x, t(3, 1)]", "(fn(a) -> a)", "len"];
const FEW: &[&str] = &["t(1, 2)", "(x = 7)", "(x - y)", "x", "late", "2", "xs[9]", "xs"];

/// Functions to compose with or to call, with holes for their own operands
const FUNCS: &[&str] = &["(+)", "(-)", "(*)", "(<)", "(in)", "(==)", "(!)", "(+ $)", "($ +)", "(< $)", "($ <)", "(in $)", "($ in)", "($ -)", "(is $)", "($ is)", "(** $)", "($ **)", "(% $)", "($ %)", "(not in $)", "($ not in)", "(>> $)", "($ >>)", "(is not $)", "len", "print", "map", "map($)", "map($, $)", "use", "use($)", "use($, $)", "g", "g($)", "g($, $)", "t", "t($)", "[$]", "[$, $]", "[...$]", "[$:]", "[:$]", "[$:$]", "[::$]", "S", "S($)", "(->a)", "min", "max", "min(int)", "max($)", "int", "min($, $)", "insert", "insert($)", "insert($, $)", "push($)", "fn(a) -> [a, $]", "fn(a, b) -> [a, b]", "(if $ then len else print)", "(if true then len else $)", "t(5, len)", "t(6, (+ 1))", "map(...$)", "(+)(...$)", "list", "set", "zip($)", "zip", "filter", "reduce", "reduce($)", "(op_)", "$"];

fn fill_holes(ch: &mut Ch, t: &str, hole: &str, alts: &[&str]) -> String {
    let mut s = t.to_string();
    // fewer alternatives where there are more holes
    let alts: &[&str] = if hole == "§" { alts } else { match s.matches(hole).count() { 0 | 1 => alts, 2 => if alts.len() > FEW.len() { FEW } else { alts }, _ => &FEW[..3.min(alts.len())] } };
    while s.contains(hole) { s = s.replacen(hole, ch.of::<&str>(alts), 1); }
    s
}

fn program(scope: &str, e: &str) -> String { format!("{}{}let late = 9\n", PRE, scope.replace('#', VARS).replace('@', e)) }

fn run(cx: &mut Cx) {
    cx.opt_compare = true;
    let t = cx.thorough();
    let shape = |ch: &mut Ch, calls: &[&str], funcs: &[&str], ops: &[&str]| -> String {
        let c = *ch.of(calls);
        let c = fill_holes(ch, c, "§", funcs);
        fill_holes(ch, &c, "$", ops)
    };
    cx.explore("one function, all operands", |ch| {
        let e = shape(ch, &["§($)", "$ . §", "§()", "§()($)", "§($)()", "§(...$)", "§()()", "x .= §", "xs[0] .= §"], FUNCS, OPERANDS);
        Some(program(ch.of::<&str>(SCOPES), &e))
    }, |cx, s| compare(cx, s, "calls and compositions"));
    let few: Vec<&str> = if t { FEW.to_vec() } else { FEW[..6].to_vec() };
    let one: Vec<&str> = FUNCS.iter().copied().filter(|f| f.matches('$').count() < 2).collect();
    cx.explore("one function, two operands", |ch| {
        let e = shape(ch, &["§($, $)", "§()($, $)", "§($)($)", "$ . §($)", "$ . $ . §", "$ . (§ . $)", "§($, ...$)", "$ . § . $"], &one, &few);
        Some(program(SCOPES[if ch.flag() { 0 } else { 1 }], &e))
    }, |cx, s| compare(cx, s, "calls and compositions"));
    let zero: Vec<&str> = if t { one.clone() } else { one.iter().copied().filter(|f| !["(*)", "(is $)", "($ is)", "(% $)", "($ %)", "(not in $)", "($ not in)", "(>> $)", "(is not $)", "(in $)", "($ in)"].contains(f)).collect() };
    cx.explore("two functions", |ch| {
        let e = shape(ch, &["($ . §) . §", "§ . §", "§(§)", "§ . § . §", "§($) . §", "§(§, $)", "§($)(§)"][..if t { 7 } else { 3 }], &zero, &few[..few.len().min(4)]);
        if e.len() > 60 { return None; }
        Some(program(SCOPES[1], &e))
    }, |cx, s| compare(cx, s, "calls and compositions"));
    // operators over constants and variables, in every nesting
    const CONSTS: &[&str] = &["0", "1", "-3", "70", "4611686018427387903", "''", "'ab'", "nil", "true", "2i", "x", "t(1, 2)"];
    const OPS: &[&str] = &["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", "<=", "==", "!=", "in", "not in", "is", "is not", "and", "or", "max", "min", ">=", ">"];
    cx.explore("constant operations", |ch| {
        let (a, o, b) = (*ch.of(CONSTS), *ch.of(OPS), *ch.of(CONSTS));
        let e = match ch.pick(9) { 0 => format!("{} {} {}", a, o, b), 1 => format!("-({} {} {})", a, o, b), 2 => format!("!({} {} {})", a, o, b), 3 => format!("[{} {} {}]", a, o, b), 4 => format!("if {} {} {} then 1 else 2", a, o, b), 5 => format!("(fn() -> {} {} {})()", a, o, b), 6 => format!("false and ({} {} {})", a, o, b), 7 => format!("not ({} {} {})", a, o, b), _ => format!("t(0, {} {} {})", a, o, b) };
        Some(program(SCOPES[0], &e))
    }, |cx, s| compare(cx, s, "constant operations"));
    cx.explore("constant operations, three operands", |ch| {
        let c = &CONSTS[..if t { 12 } else { 10 }];
        let c: Vec<&str> = c.iter().copied().filter(|x| t || !["70", "-3", "true"].contains(x)).collect();
        let (a, o, b, p, d) = (*ch.of(&c), *ch.of(OPS), *ch.of(&c), *ch.of(OPS), *ch.of(&["1", "'ab'", "x"]));
        Some(program(SCOPES[0], &if ch.flag() { format!("({} {} {}) {} {}", a, o, b, p, d) } else { format!("{} {} ({} {} {})", d, p, a, o, b) }))
    }, |cx, s| compare(cx, s, "constant operations"));
    // conditions
    cx.explore("constant conditions", |ch| {
        let c = *ch.of(&["true", "false", "nil", "0", "1", "''", "'a'", "0i", "1 == 1", "not true", "1 - 1", "x", "t(1, nil)", "print", "[]", "() -> 1", "1 - nil", "true and false", "if 0 then 1 else nil"]);
        let e = *ch.of(&["if C then t(2, 3) else t(4, 5)", "if C then x - y else 6", "if C then 6 else x - y", "(if C then t else use)(7, 8)", "if C then 1 elif C then 2 else 3", "if not C then (x = 8) else (y = 9)", "C and t(1, 2)", "C or t(1, 2)", "[if C then 1 else 2]", "3 . if C then (+ 1) else (- 2)", "-(if C then 1 else 2)", "(if C then 1 else 2) + (if C then 'a' else 3)"]);
        Some(program(ch.of::<&str>(SCOPES), &e.replace('C', c)))
    }, |cx, s| compare(cx, s, "conditions"));
    cx.explore("conditions of statements", |ch| {
        let c = *ch.of(&["true", "false", "nil", "0", "1", "k < 3", "1 == 1", "1 > 2", "t(1, k < 2)"]);
        let e = *ch.of(&["if C { print('a') } else { print('b') }", "while C { k += 1; if k > 3 { break } } else { print('e') }", "do { k += 1; if k > 3 { break } } while C else { print('e') }", "loop { k += 1; if C { break }; if k > 4 { break } }", "for i in if C then [1, 2] else [3] { print(i) }", "assert C : 'msg'", "assert C", "let z = if C then 1 else 2; print(z)", "print((fn() { if C { return 1 }; 2 })())", "print((fn() { while C { return 1 }; 2 })())"]);
        let s = *ch.of(&["let k = 0; @\nprint(k)\n", "fn body() { let k = 0; @\nprint(k) }\nbody()\n", "fn body() { let k = 0; fn in() { @ }\n in(); print(k) }\nbody()\n"]);
        Some(format!("{}{}", PRE, s.replace('@', &e.replace('C', c))))
    }, |cx, s| compare(cx, s, "conditions"));
    // statement sequences: stores, loads and pops next to each other, over globals, locals and captured variables
    const ST: &[&str] = &["a = 1", "b = a", "a", "a = b", "b", "a += 2", "print(a)", "a = b = 4", "(a = 5)", "f(a = 6)", "a = f(b)", "[a = 7, a]", "let c = a", "a, b = b, a", "if a { a = 8 }", "xs[0] = a", "xs[1] += a", "nil", "3", "a .= f", "S(a, b)", "s->a = a", "s->b"];
    let n = cx.tier.pick(3, 4);
    cx.explore("sequences of stores, loads and pops", |ch| {
        let k = 1 + ch.pick(n);
        let sub: &[&str] = if k == 4 { &ST[..12] } else { ST };
        let v: Vec<&str> = (0..k).map(|_| *ch.of(sub)).collect();
        if v.iter().filter(|s| s.starts_with("let")).count() > 1 { return None; }
        let body = v.join("; ");
        let w = *ch.of(&["#; @\nprint(a, b, xs, s)\n", "fn body() { #; @\n print(a, b, xs, s)\n @ }\nprint(body())\n", "fn body() { #; fn in() { @ }\n print(in()); print(a, b, xs, s) }\nbody()\n", "#\nfn in() { @ }\nprint(in()); print(a, b, xs, s)\n", "#\nfor i in [1, 2] { @ }\nprint(a, b, xs, s)\n"]);
        let body2 = if w.matches('@').count() == 2 && body.contains("let") { return None } else { body };
        Some(format!("struct S(a, b)\nfn f(v) -> v * 10\n{}", w.replace('#', "let a = 11, b = 22, xs = [1, 2], s = S(3, 4)").replace('@', &body2)))
    }, |cx, s| compare(cx, s, "sequences of statements"));
    // everything the other checks execute
    for id in ["C02", "C05", "C06", "C07", "C09", "C12"] { sub(cx, id); }
    if t { for id in ["C03", "C04", "C10", "C11", "C13"] { sub(cx, id); } }
}

pub fn sub(cx: &mut Cx, id: &str) {
    // the quick spaces of the other check
    let tier = cx.tier;
    cx.tier = crate::engine::Tier::Quick;
    if let Some(m) = find(id) { (m.run)(cx); }
    cx.tier = tier;
}
