//! Reference parser: Cordy source text to the syntax trees of `ast` (docs/language.md). `None` means that this parser does not accept the text.
use std::rc::Rc;

use super::ast::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T { Int(i64), Imag(i64), Str(String), Id(String), Kw(&'static str), Op(&'static str), End }

const KW: &[&str] = &["let", "fn", "return", "if", "elif", "else", "then", "loop", "while", "for", "in", "is", "not", "break", "continue", "true", "false", "nil", "struct", "exit", "assert", "self", "do", "and", "or", "module", "native"];
const OPS: &[&str] = &["...", "**=", "<<=", ">>=", "->", "**", "<<", ">>", "<=", ">=", "==", "!=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", ".=",
    "+", "-", "*", "/", "%", "<", ">", "=", "!", "&", "|", "^", "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "?", "@", "_"];

pub struct Tok { pub t: T, pub line: usize, pub col: usize, pub nl: bool }

pub fn scan(s: &str) -> Option<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut line, mut nl, mut ls) = (0, 0, true, 0);
    let mut out = Vec::new();
    'next: while i < c.len() {
        let ch = c[i];
        if ch == '\n' { line += 1; nl = true; i += 1; ls = i; continue; }
        if ch.is_whitespace() { i += 1; continue; }
        if ch == '/' && c.get(i + 1) == Some(&'/') { while i < c.len() && c[i] != '\n' { i += 1; } continue; }
        if ch == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') { if c[i] == '\n' { line += 1; nl = true; ls = i + 1; } i += 1; }
            i = (i + 2).min(c.len());
            continue;
        }
        let (at, col) = (line, i - ls);
        let t = if ch.is_ascii_digit() {
            let radix = if ch == '0' && matches!(c.get(i + 1), Some('x')) { 16 } else if ch == '0' && matches!(c.get(i + 1), Some('b')) { 2 } else { 10 };
            if radix != 10 { i += 2; }
            let st = i;
            while i < c.len() && (c[i].is_digit(radix) || c[i] == '_') { i += 1; }
            let d: String = c[st..i].iter().filter(|x| **x != '_').collect();
            let v = i64::from_str_radix(&d, radix).ok()?;
            if radix == 10 && matches!(c.get(i), Some('i' | 'j')) && !c.get(i + 1).map_or(false, |x| x.is_alphanumeric() || *x == '_') { i += 1; T::Imag(v) } else { T::Int(v) }
        } else if ch.is_alphabetic() || (ch == '_' && c.get(i + 1).map_or(false, |x| x.is_alphanumeric() || *x == '_')) {
            let st = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; }
            let w: String = c[st..i].iter().collect();
            match KW.iter().find(|k| **k == w) { Some(k) => T::Kw(k), None => T::Id(w) }
        } else if ch == '\'' || ch == '"' {
            let mut s = String::new();
            i += 1;
            loop {
                let x = *c.get(i)?;
                i += 1;
                if x == ch { break; }
                if x == '\n' { line += 1; ls = i; }
                if x == '\\' {
                    let e = *c.get(i)?;
                    i += 1;
                    s.push(match e { 'n' => '\n', 'r' => '\r', 't' => '\t', '\'' => '\'', '"' => '"', '\\' => '\\', _ => return None });
                } else { s.push(x); }
            }
            T::Str(s)
        } else {
            let mut f = None;
            for o in OPS { if c[i..].iter().take(o.len()).collect::<String>() == **o { f = Some(*o); break; } }
            let o = f?;
            i += o.len();
            T::Op(o)
        };
        out.push(Tok { t, line: at, col, nl });
        nl = false;
        continue 'next;
    }
    out.push(Tok { t: T::End, line, col: 0, nl: true });
    Some(out)
}

pub fn parse(s: &str) -> Option<Vec<Stmt>> {
    let mut p = P { t: scan(s)?, i: 0, depth: 0 };
    let r = p.stmts()?;
    if p.peek() == &T::End { Some(r) } else { None }
}

pub fn parse_expr(s: &str) -> Option<Expr> {
    let mut p = P { t: scan(s)?, i: 0, depth: 0 };
    let r = p.expr()?;
    if p.peek() == &T::End { Some(r) } else { None }
}

/// The text of an `eval`: one expression, which may be a vector without parenthesis or an assignment
pub fn parse_eval(s: &str) -> Option<Expr> {
    let mut p = P { t: scan(s)?, i: 0, depth: 0 };
    let r = match p.stmt()? { Stmt::Expr(e) => e, _ => return None };
    if p.peek() == &T::End { Some(r) } else { None }
}

struct P { t: Vec<Tok>, i: usize, depth: usize }

impl P {
    fn peek(&self) -> &T { &self.t[self.i].t }
    fn at(&self, k: usize) -> &T { &self.t[(self.i + k).min(self.t.len() - 1)].t }
    fn nl(&self) -> bool { self.t[self.i].nl }
    fn next(&mut self) -> T { let t = self.t[self.i].t.clone(); if self.i + 1 < self.t.len() { self.i += 1; } t }
    fn is(&self, o: &str) -> bool { matches!(self.peek(), T::Op(x) if *x == o) || matches!(self.peek(), T::Kw(x) if *x == o) }
    fn is_at(&self, k: usize, o: &str) -> bool { matches!(self.at(k), T::Op(x) if *x == o) || matches!(self.at(k), T::Kw(x) if *x == o) }
    fn eat(&mut self, o: &str) -> bool { if self.is(o) { self.next(); true } else { false } }
    fn want(&mut self, o: &str) -> Option<()> { if self.eat(o) { Some(()) } else { None } }
    fn id(&mut self) -> Option<String> { match self.next() { T::Id(s) => Some(s), _ => None } }

    fn stmts(&mut self) -> Option<Vec<Stmt>> {
        let mut v = Vec::new();
        loop {
            if matches!(self.peek(), T::End) || self.is("}") { return Some(v); }
            if self.eat(";") { v.push(Stmt::Semi); continue; }
            v.push(self.stmt()?);
        }
    }

    fn block(&mut self) -> Option<Vec<Stmt>> { self.want("{")?; let b = self.stmts()?; self.want("}")?; Some(b) }
    fn opt_else(&mut self) -> Option<Option<Vec<Stmt>>> { if self.eat("else") { Some(Some(self.block()?)) } else { Some(None) } }

    fn stmt(&mut self) -> Option<Stmt> {
        let t = self.peek().clone();
        match t {
            T::Kw("fn") if matches!(self.at(1), T::Id(_)) => { self.next(); Some(Stmt::Fn(vec![], self.named_fn(false)?)) }
            T::Op("@") => {
                let mut d = Vec::new();
                while self.eat("@") { d.push(self.expr()?); }
                if self.is("fn") && self.is_at(1, "(") { let f = self.expr()?; return Some(Stmt::Expr(d.into_iter().rev().fold(f, |f, d| call(d, vec![f])))); }
                self.want("fn")?;
                Some(Stmt::Fn(d, self.named_fn(false)?))
            }
            T::Kw("struct") => {
                self.next();
                let name = self.id()?;
                self.want("(")?;
                let mut fields = Vec::new();
                while !self.eat(")") { fields.push(self.id()?); self.eat(","); }
                let methods = if self.is("{") { self.methods()? } else { vec![] };
                Some(Stmt::Struct(Rc::new(StructDef { name, fields, methods, module: false })))
            }
            T::Kw("module") => { self.next(); let name = self.id()?; let methods = if self.is("{") { self.methods()? } else { vec![] }; Some(Stmt::Struct(Rc::new(StructDef { name, fields: vec![], methods, module: true }))) }
            T::Kw("return") => {
                self.next();
                // the value may be on a following line; it is absent only before `;` or `}` or the end
                if self.is(";") || self.is("}") || matches!(self.peek(), T::End) { return Some(Stmt::Return(None)); }
                Some(Stmt::Return(Some(self.top_expr()?)))
            }
            T::Kw("if") => {
                let save = self.i;
                if let Some(s) = self.if_stmt() { return Some(s); }
                // `if .. then ..` is an expression
                self.i = save;
                Some(Stmt::Expr(self.top_expr()?))
            }
            T::Kw("while") => { self.next(); let c = self.expr()?; let b = self.block()?; Some(Stmt::While(c, b, self.opt_else()?)) }
            T::Kw("do") => {
                self.next();
                let b = self.block()?;
                let c = if self.eat("while") { Some(self.expr()?) } else { None };
                Some(Stmt::Do(b, c, self.opt_else()?))
            }
            T::Kw("loop") => { self.next(); Some(Stmt::Loop(self.block()?)) }
            T::Kw("for") => { self.next(); let p = self.bare_pat()?; self.want("in")?; let x = self.expr()?; let b = self.block()?; Some(Stmt::For(p, x, b, self.opt_else()?)) }
            T::Kw("break") => { self.next(); Some(Stmt::Break) }
            T::Kw("continue") => { self.next(); Some(Stmt::Continue) }
            T::Kw("assert") => { self.next(); let e = self.expr()?; let m = if self.eat(":") { Some(self.expr()?) } else { None }; Some(Stmt::Assert(e, m)) }
            T::Kw("let") => {
                self.next();
                let mut v = Vec::new();
                loop {
                    let p = self.bare_pat()?;
                    let e = if self.eat("=") { Some(self.e9()?) } else { None };
                    // `let x, y` declares two variables, `let x, y = ..` destructures
                    match (p, e) {
                        (Pat::Terms(t), None) => for p in t { v.push((p, None)) },
                        (p, e) => v.push((p, e)),
                    }
                    if !self.eat(",") { break; }
                }
                Some(Stmt::Let(v))
            }
            T::Op("{") => { let save = self.i; match self.top_expr() { Some(e) => Some(Stmt::Expr(e)), None => { self.i = save; None } } }
            _ => Some(Stmt::Expr(self.top_expr()?)),
        }
    }

    fn if_stmt(&mut self) -> Option<Stmt> {
        self.want("if")?;
        let mut v = vec![(self.expr()?, self.block()?)];
        while self.eat("elif") { v.push((self.expr()?, self.block()?)); }
        Some(Stmt::If(v, self.opt_else()?))
    }

    fn methods(&mut self) -> Option<Vec<Rc<FnDef>>> {
        self.want("{")?;
        let mut m = Vec::new();
        while !self.eat("}") {
            if self.eat(";") { continue; }
            self.want("fn")?;
            m.push(self.named_fn(true)?);
        }
        Some(m)
    }

    fn named_fn(&mut self, method: bool) -> Option<Rc<FnDef>> { let n = self.id()?; self.fn_rest(Some(n), method) }

    fn fn_rest(&mut self, name: Option<String>, method: bool) -> Option<Rc<FnDef>> {
        self.want("(")?;
        let mut params = Vec::new();
        let mut is_self = false;
        while !self.eat(")") {
            if method && params.is_empty() && self.eat("self") { is_self = true; params.push(Param::req("self")); }
            else {
                let pat = self.pat()?;
                let (pat, var) = match pat { Pat::VarName(n) => (Pat::Name(n), true), p => (p, false) };
                let kind = if var { ParamKind::Var } else if self.eat("?") { ParamKind::Opt } else if self.eat("=") { ParamKind::Def(self.expr()?) } else { ParamKind::Req };
                params.push(Param { pat, kind });
            }
            if !self.eat(",") && !self.is(")") { return None; }
        }
        let body = if self.eat("->") { BodyD::Expr(Rc::new(self.expr()?)) } else { BodyD::Block(Rc::new(self.block()?)) };
        Some(Rc::new(FnDef { name, params, body, is_self }))
    }

    fn pat(&mut self) -> Option<Pat> {
        match self.next() {
            T::Id(n) => Some(Pat::Name(n)),
            T::Op("_") => Some(Pat::Empty),
            T::Op("*") => match self.next() { T::Id(n) => Some(Pat::VarName(n)), T::Op("_") => Some(Pat::VarEmpty), _ => None },
            T::Op("(") => { let mut v = vec![self.pat()?]; while self.eat(",") { if self.is(")") { break; } v.push(self.pat()?); } self.want(")")?; Some(Pat::Terms(v)) }
            _ => None,
        }
    }
    fn bare_pat(&mut self) -> Option<Pat> {
        let mut v = vec![self.pat()?];
        while self.eat(",") { v.push(self.pat()?); }
        Some(if v.len() == 1 && !matches!(v[0], Pat::Terms(_)) { v.pop().unwrap() } else { Pat::Terms(v) })
    }

    // ---------------------------------------------------------------- expressions

    /// An expression statement: additionally permits pattern assignment
    fn top_expr(&mut self) -> Option<Expr> {
        let save = self.i;
        if let Some(p) = self.pat_targets() {
            if self.eat("=") { let e = self.rhs()?; return Some(Expr::PatAssign(p, Box::new(e))); }
        }
        self.i = save;
        let e = self.assignment(true)?;
        if !self.is(",") || matches!(e, Expr::Assign(..) | Expr::OpAssign(..)) { return Some(e); }
        let mut v = vec![e];
        // (operators of lower precedence than `|` need parenthesis here)
        while self.eat(",") { v.push(self.e7()?); }
        Some(vector(v))
    }
    /// The right hand side of an assignment statement: commas build a vector
    fn rhs(&mut self) -> Option<Expr> {
        let e = self.top_expr()?;
        if !self.is(",") { return Some(e); }
        let mut v = vec![e];
        while self.eat(",") { v.push(self.e7()?); }
        Some(vector(v))
    }
    fn pat_targets(&mut self) -> Option<Vec<Pat>> {
        let mut v = vec![self.pat_target()?];
        let mut comma = false;
        while self.eat(",") { comma = true; if self.is("=") { break; } v.push(self.pat_target()?); }
        if !comma && matches!(v[0], Pat::Target(_)) { return None; }
        if v.len() == 1 && matches!(v[0], Pat::VarName(_)) { return None; }
        Some(v)
    }
    fn pat_target(&mut self) -> Option<Pat> {
        if self.eat("_") { return Some(Pat::Empty); }
        if self.is("*") { return self.pat(); }
        if self.eat("(") {
            let mut v = vec![self.pat_target()?];
            if self.is(")") && matches!(v[0], Pat::VarName(_) | Pat::VarEmpty) { return None; }
            while self.eat(",") { if self.is(")") { break; } v.push(self.pat_target()?); }
            self.want(")")?;
            return Some(Pat::Terms(v));
        }
        match self.e2()? { e @ (Expr::Var(_) | Expr::Index(..) | Expr::GetField(..)) => Some(Pat::Target(e)), _ => None }
    }

    fn expr(&mut self) -> Option<Expr> {
        self.depth += 1;
        if self.depth > 200 { return None; }
        if self.is("(") {
            let save = self.i;
            if let Some(p) = self.pat_target() {
                if self.eat("=") { let e = self.expr()?; self.depth -= 1; return Some(Expr::PatAssign(vec![p], Box::new(e))); }
            }
            self.i = save;
        }
        let r = self.assignment(false);
        self.depth -= 1;
        r
    }

    fn assignment(&mut self, top: bool) -> Option<Expr> {
        let e = self.e9()?;
        let op = match self.peek() {
            T::Op("=") => { self.next(); let r = if top { self.rhs()? } else { self.expr()? }; return match &e {
                Expr::Var(_) | Expr::Index(..) | Expr::GetField(..) => Some(assign_to(e, r)),
                _ => None } }
            T::Op(o) if o.len() > 1 && o.ends_with('=') => match *o {
                "+=" => BinOp::Add, "-=" => BinOp::Sub, "*=" => BinOp::Mul, "/=" => BinOp::Div, "%=" => BinOp::Mod, "**=" => BinOp::Pow, "&=" => BinOp::And, "|=" => BinOp::Or, "^=" => BinOp::Xor, "<<=" => BinOp::Shl, ">>=" => BinOp::Shr, ".=" => BinOp::Dot,
                _ => return Some(e),
            },
            T::Id(n) if (n == "max" || n == "min") && self.is_at(1, "=") => { let o = if n == "max" { BinOp::Max } else { BinOp::Min }; self.next(); o }
            _ => return Some(e),
        };
        self.next();
        let r = if top { self.top_expr()? } else { self.expr()? };
        match &e { Expr::Var(_) | Expr::Index(..) | Expr::GetField(..) => Some(Expr::OpAssign(op, Box::new(e), Box::new(r))), _ => None }
    }

    fn e9(&mut self) -> Option<Expr> {
        let mut e = self.e8()?;
        loop {
            if self.is("and") { self.next(); let r = self.e8()?; e = Expr::And(Box::new(e), Box::new(r)); }
            else if self.is("or") { self.next(); let r = self.e8()?; e = Expr::Or(Box::new(e), Box::new(r)); }
            else { return Some(e); }
        }
    }

    fn cmp_op(&self, k: usize) -> Option<BinOp> { Some(match self.at(k) { T::Op("<") => BinOp::Lt, T::Op(">") => BinOp::Gt, T::Op("<=") => BinOp::Le, T::Op(">=") => BinOp::Ge, T::Op("==") => BinOp::Eq, T::Op("!=") => BinOp::Ne, _ => return None }) }
    fn closes(&self, k: usize) -> bool { matches!(self.at(k), T::Op(")" | "," | "]" | "}")) }

    fn e8(&mut self) -> Option<Expr> {
        let e = self.e7()?;
        let mut v = Vec::new();
        while let Some(o) = self.cmp_op(0) { if self.is_at(1, ")") { break; } self.next(); v.push((o, self.e7()?)); }
        Some(if v.is_empty() { e } else { Expr::Cmp(Box::new(e), v) })
    }
    fn e7(&mut self) -> Option<Expr> {
        let mut e = self.binary(6)?;
        while self.eat(".") { let r = self.binary(6)?; e = compose(e, r); }
        Some(e)
    }

    /// a binary operator (levels 3 to 6) at offset k, and its length in tokens
    fn bin_op(&self, k: usize) -> Option<(BinOp, usize)> {
        Some(match self.at(k) {
            T::Op("*") => (BinOp::Mul, 1), T::Op("/") => (BinOp::Div, 1), T::Op("%") => (BinOp::Mod, 1), T::Op("**") => (BinOp::Pow, 1),
            T::Kw("is") => if self.is_at(k + 1, "not") { (BinOp::IsNot, 2) } else { (BinOp::Is, 1) },
            T::Kw("in") => (BinOp::In, 1),
            T::Kw("not") if self.is_at(k + 1, "in") => (BinOp::NotIn, 2),
            T::Op("+") => (BinOp::Add, 1), T::Op("-") => (BinOp::Sub, 1), T::Op("<<") => (BinOp::Shl, 1), T::Op(">>") => (BinOp::Shr, 1),
            T::Op("&") => (BinOp::And, 1), T::Op("|") => (BinOp::Or, 1), T::Op("^") => (BinOp::Xor, 1),
            _ => return None,
        })
    }

    fn binary(&mut self, level: u32) -> Option<Expr> {
        if level == 2 { return self.e2(); }
        let mut e = self.binary(level - 1)?;
        while let Some((o, n)) = self.bin_op(0) {
            if o.level() != level || self.is_at(n, ")") { break; }
            self.i += n;
            let r = self.binary(level - 1)?;
            e = Expr::Bin(o, Box::new(e), Box::new(r));
        }
        Some(e)
    }

    fn e2(&mut self) -> Option<Expr> {
        if self.is("-") { self.next(); return Some(un(UnOp::Neg, self.e2()?)); }
        if self.is("!") { self.next(); return Some(un(UnOp::Not, self.e2()?)); }
        if self.is("not") { self.next(); return Some(un(UnOp::LNot, self.e2()?)); }
        let mut e = self.e1()?;
        loop {
            if self.is("->") { self.next(); let f = self.id()?; e = field(e, &f); continue; }
            if self.nl() { return Some(e); }
            match self.peek() {
                T::Op("(") => { self.next(); let a = self.arglist(")")?; e = Expr::Call(Box::new(e), a, Style::Paren); }
                T::Op("[") => {
                    self.next();
                    let mut parts: [Option<Box<Expr>>; 3] = [None, None, None];
                    let mut k = 0;
                    let mut colons = 0;
                    loop {
                        if self.eat("]") { break; }
                        if self.eat(":") { k += 1; colons += 1; if k > 2 { return None; } continue; }
                        if parts[k].is_some() { return None; }
                        parts[k] = Some(Box::new(self.expr()?));
                    }
                    e = if colons == 0 { index(e, *parts[0].take()?) } else { Expr::Slice(Box::new(e), parts) };
                }
                T::Id(_) if !self.is_at(1, "=") => { let a = self.e1()?; e = Expr::Call(Box::new(e), vec![arg(a)], Style::Bare); }
                T::Kw("fn") if self.is_at(1, "(") => { let a = self.e1()?; e = Expr::Call(Box::new(e), vec![arg(a)], Style::Bare); }
                T::Int(_) | T::Imag(_) | T::Str(_) | T::Kw("nil" | "true" | "false" | "exit" | "if") => { let a = self.e1()?; e = Expr::Call(Box::new(e), vec![arg(a)], Style::Bare); }
                _ => return Some(e),
            }
        }
    }

    fn arglist(&mut self, close: &str) -> Option<Vec<Arg>> {
        let mut v = Vec::new();
        loop {
            if self.eat(close) { return Some(v); }
            v.push(self.comma_arg()?);
            if !self.eat(",") && !self.is(close) { return None; }
        }
    }

    /// An element: an expression, an unrolled one, or a (partial) operator
    fn comma_arg(&mut self) -> Option<Arg> {
        if self.closes(1) {
            if self.is("-") { self.next(); return Some(arg(Expr::OpUn(UnOp::Neg))); }
            if self.is("!") { self.next(); return Some(arg(Expr::OpUn(UnOp::Not))); }
            if self.is("not") { self.next(); return Some(arg(Expr::OpUn(UnOp::LNot))); }
        }
        if self.eat("->") { let f = self.id()?; return Some(arg(Expr::FieldFn(f))); }
        if self.eat("...") { return Some(unroll(self.expr()?)); }
        let left = if self.is("-") { None } else { self.bin_op(0).or_else(|| self.cmp_op(0).map(|o| (o, 1))) };
        if let Some((o, n)) = left {
            self.i += n;
            if self.closes(0) { return Some(arg(Expr::OpFn(o))); }
            let e = self.expr()?;
            return Some(arg(Expr::OpRight(o, Box::new(e))));
        }
        let e = self.expr()?;
        let right = self.bin_op(0).or_else(|| self.cmp_op(0).map(|o| (o, 1)));
        if let Some((o, n)) = right { if self.closes(n) && o != BinOp::Sub { self.i += n; return Some(arg(Expr::OpLeft(Box::new(e), o))); } }
        Some(arg(e))
    }

    fn e1(&mut self) -> Option<Expr> {
        Some(match self.next() {
            T::Int(i) => int(i),
            T::Imag(i) => Expr::Imag(i),
            T::Str(s) => Expr::Str(s),
            T::Id(s) => Expr::Var(s),
            T::Kw("nil") => Expr::Nil,
            T::Kw("true") => Expr::Bool(true),
            T::Kw("false") => Expr::Bool(false),
            T::Kw("exit") => Expr::Exit,
            T::Kw("self") => var("self"),
            T::Kw("fn") => Expr::Lambda(self.fn_rest(None, false)?),
            T::Kw("if") => return self.if_expr(),
            T::Op("(") => {
                let first = self.comma_arg()?;
                if self.is(")") && !first.unroll { self.next(); return Some(first.e); }
                let mut v = vec![first];
                while self.eat(",") { if self.is(")") { break; } v.push(self.comma_arg()?); }
                self.want(")")?;
                Expr::Vector(v)
            }
            T::Op("[") => {
                if self.eat("]") { return Some(list(vec![])); }
                let first = if self.is(":") { None } else { Some(self.comma_arg()?) };
                if self.is(":") {
                    if first.as_ref().map_or(false, |a| a.unroll) { return None; }
                    let mut parts = vec![first.map(|a| a.e)];
                    while self.eat(":") { parts.push(if self.is(":") || self.is("]") { None } else if self.is("...") { return None } else { Some(self.comma_arg()?.e) }); }
                    self.want("]")?;
                    if parts.len() > 3 { return None; }
                    parts.resize(3, None);
                    let mut it = parts.into_iter().map(|p| p.map(Box::new));
                    return Some(Expr::SliceLit([it.next().unwrap(), it.next().unwrap(), it.next().unwrap()]));
                }
                let mut v = vec![first?];
                while self.eat(",") { if self.is("]") { break; } v.push(self.comma_arg()?); }
                self.want("]")?;
                Expr::List(v)
            }
            T::Op("{") => {
                let mut items: Vec<(Arg, Option<Expr>)> = Vec::new();
                let mut is_dict = false;
                loop {
                    if self.eat("}") { break; }
                    let a = self.comma_arg()?;
                    let v = if self.eat(":") { is_dict = true; if self.is("...") { return None; } Some(self.comma_arg()?.e) } else { None };
                    items.push((a, v));
                    if !self.eat(",") && !self.is("}") { return None; }
                }
                if is_dict {
                    if items.iter().any(|(a, v)| v.is_none() && !a.unroll) { return None; }
                    Expr::Dict(items.into_iter().map(|(a, v)| (a.e, v)).collect())
                } else { Expr::Set(items.into_iter().map(|x| x.0).collect()) }
            }
            _ => return None,
        })
    }

    fn if_expr(&mut self) -> Option<Expr> {
        let c = self.expr()?;
        self.want("then")?;
        let a = self.expr()?;
        let b = if self.eat("elif") { self.if_expr()? } else { self.want("else")?; self.expr()? };
        Some(iff(c, a, b))
    }
}
