//! Reference syntax trees, and a printer that uses exactly the parentheses the documented precedence table requires
//! (or, in `full` mode, parentheses around every compound expression).
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Mul, Div, Pow, Mod, Is, IsNot, In, NotIn, Add, Sub, Shl, Shr, And, Or, Xor, Lt, Gt, Le, Ge, Eq, Ne, Max, Min, Dot }

impl BinOp {
    pub fn text(self) -> &'static str {
        use BinOp::*;
        match self {
            Mul => "*", Div => "/", Pow => "**", Mod => "%", Is => "is", IsNot => "is not", In => "in", NotIn => "not in", Add => "+", Sub => "-",
            Shl => "<<", Shr => ">>", And => "&", Or => "|", Xor => "^", Lt => "<", Gt => ">", Le => "<=", Ge => ">=", Eq => "==", Ne => "!=",
            Max => "max", Min => "min", Dot => ".",
        }
    }
    pub fn level(self) -> u32 {
        use BinOp::*;
        match self {
            Mul | Div | Pow | Mod | Is | IsNot | In | NotIn => 3,
            Add | Sub => 4,
            Shl | Shr => 5,
            And | Or | Xor => 6,
            Dot => 7,
            Lt | Gt | Le | Ge | Eq | Ne => 8,
            Max | Min => 10,
        }
    }
}

pub const ARITH: [BinOp; 15] = [BinOp::Mul, BinOp::Div, BinOp::Pow, BinOp::Mod, BinOp::Is, BinOp::IsNot, BinOp::In, BinOp::NotIn, BinOp::Add, BinOp::Sub, BinOp::Shl, BinOp::Shr, BinOp::And, BinOp::Or, BinOp::Xor];
pub const CMP: [BinOp; 6] = [BinOp::Lt, BinOp::Gt, BinOp::Le, BinOp::Ge, BinOp::Eq, BinOp::Ne];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum UnOp { Neg, Not, LNot }

impl UnOp { pub fn text(self) -> &'static str { match self { UnOp::Neg => "-", UnOp::Not => "!", UnOp::LNot => "not " } } }

#[derive(Clone, Debug)]
pub struct Arg { pub unroll: bool, pub e: Expr }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style { Paren, Dot, Bare }

#[derive(Clone, Debug)]
pub enum Expr {
    Nil,
    Bool(bool),
    Int(i64),
    Imag(i64),
    Str(String),
    Var(String),
    Un(UnOp, Box<Expr>),
    Bin(BinOp, Box<Expr>, Box<Expr>),
    Cmp(Box<Expr>, Vec<(BinOp, Expr)>),
    And(Box<Expr>, Box<Expr>),
    Or(Box<Expr>, Box<Expr>),
    If(Box<Expr>, Box<Expr>, Box<Expr>),
    /// `f(a, b)`, or with `Bare`: `f a` (one atomic argument)
    Call(Box<Expr>, Vec<Arg>, Style),
    /// `x . f`
    Compose(Box<Expr>, Box<Expr>),
    Index(Box<Expr>, Box<Expr>),
    Slice(Box<Expr>, [Option<Box<Expr>>; 3]),
    /// `[a:b:c]` as a value
    SliceLit([Option<Box<Expr>>; 3]),
    List(Vec<Arg>),
    Vector(Vec<Arg>),
    Set(Vec<Arg>),
    /// key: value, or an unrolled iterable
    Dict(Vec<(Expr, Option<Expr>)>),
    Lambda(Rc<FnDef>),
    OpFn(BinOp),
    OpUn(UnOp),
    /// `(op e)`
    OpRight(BinOp, Box<Expr>),
    /// `(e op)`
    OpLeft(Box<Expr>, BinOp),
    GetField(Box<Expr>, String),
    FieldFn(String),
    Assign(Box<Expr>, Box<Expr>),
    OpAssign(BinOp, Box<Expr>, Box<Expr>),
    /// pattern assignment: targets are Var / Index / GetField expressions inside the pattern
    PatAssign(Vec<Pat>, Box<Expr>),
    Exit,
    /// Literal source text standing for an expression that the generator guarantees to mean the contained expression
    Text(String, Box<Expr>),
}

#[derive(Clone, Debug)]
pub enum Pat { Name(String), Empty, VarName(String), VarEmpty, Terms(Vec<Pat>), Target(Expr) }

#[derive(Clone, Debug)]
pub enum ParamKind { Req, Opt, Def(Expr), Var }

#[derive(Clone, Debug)]
pub struct Param { pub pat: Pat, pub kind: ParamKind }

impl Param {
    pub fn req(n: &str) -> Param { Param { pat: Pat::Name(n.into()), kind: ParamKind::Req } }
    pub fn show_name(&self) -> String { show_pat(&self.pat, true) }
}

pub fn show_pat(p: &Pat, nested: bool) -> String {
    match p {
        Pat::Name(n) => n.clone(),
        Pat::Empty => "_".into(),
        Pat::VarName(n) => format!("*{}", n),
        Pat::VarEmpty => "*_".into(),
        Pat::Terms(t) => {
            let s = t.iter().map(|p| show_pat(p, true)).collect::<Vec<_>>().join(", ");
            if nested { format!("({})", s) } else { s }
        }
        Pat::Target(e) => Printer::new().expr(e, 1, false),
    }
}

#[derive(Clone, Debug)]
pub enum BodyD { Expr(Rc<Expr>), Block(Rc<Vec<Stmt>>) }

#[derive(Clone, Debug)]
pub struct FnDef { pub name: Option<String>, pub params: Vec<Param>, pub body: BodyD, pub is_self: bool }

#[derive(Clone, Debug)]
pub struct StructDef { pub name: String, pub fields: Vec<String>, pub methods: Vec<Rc<FnDef>>, pub module: bool }

#[derive(Clone, Debug)]
pub enum Stmt {
    Expr(Expr),
    /// An empty statement: a lone `;`
    Semi,
    Let(Vec<(Pat, Option<Expr>)>),
    Fn(Vec<Expr>, Rc<FnDef>),
    If(Vec<(Expr, Vec<Stmt>)>, Option<Vec<Stmt>>),
    While(Expr, Vec<Stmt>, Option<Vec<Stmt>>),
    Do(Vec<Stmt>, Option<Expr>, Option<Vec<Stmt>>),
    Loop(Vec<Stmt>),
    For(Pat, Expr, Vec<Stmt>, Option<Vec<Stmt>>),
    Break,
    Continue,
    Return(Option<Expr>),
    Assert(Expr, Option<Expr>),
    Struct(Rc<StructDef>),
}

// ------------------------------------------------------------------------------------------------ constructors

pub fn int(i: i64) -> Expr { Expr::Int(i) }
pub fn st(s: &str) -> Expr { Expr::Str(s.into()) }
pub fn var(s: &str) -> Expr { Expr::Var(s.into()) }
pub fn un(o: UnOp, e: Expr) -> Expr { Expr::Un(o, Box::new(e)) }
pub fn bin(o: BinOp, a: Expr, b: Expr) -> Expr {
    if o.level() == 8 { Expr::Cmp(Box::new(a), vec![(o, b)]) } else { Expr::Bin(o, Box::new(a), Box::new(b)) }
}
pub fn arg(e: Expr) -> Arg { Arg { unroll: false, e } }
pub fn unroll(e: Expr) -> Arg { Arg { unroll: true, e } }
pub fn args(v: Vec<Expr>) -> Vec<Arg> { v.into_iter().map(arg).collect() }
pub fn call(f: Expr, v: Vec<Expr>) -> Expr { Expr::Call(Box::new(f), args(v), Style::Paren) }
pub fn calln(f: &str, v: Vec<Expr>) -> Expr { call(var(f), v) }
pub fn compose(x: Expr, f: Expr) -> Expr { Expr::Compose(Box::new(x), Box::new(f)) }
pub fn list(v: Vec<Expr>) -> Expr { Expr::List(args(v)) }
pub fn vector(v: Vec<Expr>) -> Expr { Expr::Vector(args(v)) }
pub fn index(a: Expr, i: Expr) -> Expr { Expr::Index(Box::new(a), Box::new(i)) }
pub fn assign(n: &str, e: Expr) -> Expr { Expr::Assign(Box::new(var(n)), Box::new(e)) }
pub fn assign_to(t: Expr, e: Expr) -> Expr { Expr::Assign(Box::new(t), Box::new(e)) }
pub fn opassign(o: BinOp, n: &str, e: Expr) -> Expr { Expr::OpAssign(o, Box::new(var(n)), Box::new(e)) }
pub fn field(e: Expr, f: &str) -> Expr { Expr::GetField(Box::new(e), f.into()) }
pub fn iff(c: Expr, a: Expr, b: Expr) -> Expr { Expr::If(Box::new(c), Box::new(a), Box::new(b)) }
pub fn lambda(params: Vec<Param>, body: Expr) -> Expr { Expr::Lambda(Rc::new(FnDef { name: None, params, body: BodyD::Expr(Rc::new(body)), is_self: false })) }
pub fn lambda_block(params: Vec<Param>, body: Vec<Stmt>) -> Expr { Expr::Lambda(Rc::new(FnDef { name: None, params, body: BodyD::Block(Rc::new(body)), is_self: false })) }
pub fn func(name: &str, params: Vec<Param>, body: Vec<Stmt>) -> Stmt { Stmt::Fn(vec![], fndef(name, params, body)) }
pub fn fndef(name: &str, params: Vec<Param>, body: Vec<Stmt>) -> Rc<FnDef> { Rc::new(FnDef { name: Some(name.into()), params, body: BodyD::Block(Rc::new(body)), is_self: false }) }
pub fn fnexpr(name: &str, params: Vec<Param>, body: Expr) -> Stmt { Stmt::Fn(vec![], Rc::new(FnDef { name: Some(name.into()), params, body: BodyD::Expr(Rc::new(body)), is_self: false })) }
pub fn letv(n: &str, e: Expr) -> Stmt { Stmt::Let(vec![(Pat::Name(n.into()), Some(e))]) }
pub fn print(v: Vec<Expr>) -> Stmt { Stmt::Expr(calln("print", v)) }
pub fn name(n: &str) -> Pat { Pat::Name(n.into()) }
pub fn reqs(v: &[&str]) -> Vec<Param> { v.iter().map(|n| Param::req(n)).collect() }

// ------------------------------------------------------------------------------------------------ printer

#[derive(Clone, Copy)]
pub struct Printer {
    /// parenthesise every compound operand
    pub full: bool,
    /// separate statements by `;` instead of newlines
    pub semi: bool,
}

pub fn quote_lit(s: &str) -> String {
    let mut r = String::from("'");
    for c in s.chars() {
        match c { '\'' => r.push_str("\\'"), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), '\r' => r.push_str("\\r"), '\t' => r.push_str("\\t"), c => r.push(c) }
    }
    r.push('\'');
    r
}

impl Printer {
    pub fn new() -> Printer { Printer { full: false, semi: false } }

    fn level(e: &Expr) -> u32 {
        match e {
            Expr::Un(..) => 2,
            Expr::Int(i) if *i < 0 => 2,
            Expr::Bin(o, ..) => o.level(),
            Expr::Cmp(..) => 8,
            Expr::And(..) | Expr::Or(..) => 9,
            Expr::Compose(..) => 7,
            Expr::Assign(..) | Expr::OpAssign(..) => 11,
            Expr::PatAssign(..) => 12,
            _ => 1,
        }
    }
    /// Extends as far to the right as possible, so it must not be followed by anything it could swallow
    fn open(e: &Expr) -> bool {
        match e {
            Expr::If(..) => true,
            Expr::Lambda(_) => true,
            Expr::Text(_, e) => Printer::open(e),
            _ => false,
        }
    }

    /// `max`: the loosest level permitted here; `tail`: nothing follows within the enclosing brackets/statement
    pub fn expr(&self, e: &Expr, max: u32, tail: bool) -> String {
        let l = Printer::level(e);
        let compound = l > 1 || Printer::open(e);
        if l > max || (Printer::open(e) && !tail) || (self.full && compound && max < 11) {
            return format!("({})", self.bare(e, true));
        }
        self.bare(e, tail)
    }

    /// An argument, element, or other position delimited on both sides
    pub fn top(&self, e: &Expr) -> String { self.expr(e, 11, true) }

    pub fn arglist(&self, v: &[Arg]) -> String {
        v.iter().enumerate().map(|(i, a)| format!("{}{}", if a.unroll { "..." } else { "" }, self.expr(&a.e, 11, i + 1 == v.len()))).collect::<Vec<_>>().join(", ")
    }

    fn bare(&self, e: &Expr, tail: bool) -> String {
        match e {
            Expr::Nil => "nil".into(),
            Expr::Bool(b) => b.to_string(),
            Expr::Int(i) => i.to_string(),
            Expr::Imag(i) => format!("{}i", i),
            Expr::Str(s) => quote_lit(s),
            Expr::Var(s) => s.clone(),
            Expr::Un(o, x) => format!("{}{}", o.text(), self.expr(x, 2, tail)),
            Expr::Bin(o, a, b) => format!("{} {} {}", self.expr(a, o.level(), false), o.text(), self.expr(b, o.level() - 1, tail)),
            Expr::Cmp(a, v) => {
                let mut s = self.expr(a, 7, false);
                for (i, (o, b)) in v.iter().enumerate() { s.push_str(&format!(" {} {}", o.text(), self.expr(b, 7, tail && i + 1 == v.len()))); }
                s
            }
            Expr::And(a, b) => format!("{} and {}", self.expr(a, 9, false), self.expr(b, 8, tail)),
            Expr::Or(a, b) => format!("{} or {}", self.expr(a, 9, false), self.expr(b, 8, tail)),
            Expr::If(c, a, b) => format!("if {} then {} else {}", self.expr(c, 11, false), self.expr(a, 11, false), self.expr(b, 11, tail)),
            Expr::Call(f, v, Style::Bare) => format!("{} {}", self.expr(f, 1, false), self.expr(&v[0].e, 1, false)),
            Expr::Call(f, v, _) => format!("{}({})", self.expr(f, 1, false), self.arglist(v)),
            Expr::Compose(x, f) => format!("{} . {}", self.expr(x, 7, false), self.expr(f, 6, tail)),
            Expr::Index(a, i) => format!("{}[{}]", self.expr(a, 1, false), self.top(i)),
            Expr::Slice(a, p) => {
                let f = |x: &Option<Box<Expr>>| x.as_ref().map_or(String::new(), |e| self.top(e));
                match &p[2] { Some(_) => format!("{}[{}:{}:{}]", self.expr(a, 1, false), f(&p[0]), f(&p[1]), f(&p[2])), None => format!("{}[{}:{}]", self.expr(a, 1, false), f(&p[0]), f(&p[1])) }
            }
            Expr::SliceLit(p) => {
                let f = |x: &Option<Box<Expr>>| x.as_ref().map_or(String::new(), |e| self.top(e));
                match &p[2] { Some(_) => format!("[{}:{}:{}]", f(&p[0]), f(&p[1]), f(&p[2])), None => format!("[{}:{}]", f(&p[0]), f(&p[1])) }
            }
            Expr::List(v) => format!("[{}]", self.arglist(v)),
            Expr::Vector(v) if v.is_empty() => "vector()".into(),
            Expr::Vector(v) => if v.len() == 1 && !v[0].unroll { format!("({},)", self.arglist(v)) } else { format!("({})", self.arglist(v)) },
            Expr::Set(v) => format!("{{{}}}", self.arglist(v)),
            Expr::Dict(v) => if v.is_empty() { "dict()".into() } else {
                format!("{{{}}}", v.iter().map(|(k, v)| match v { Some(v) => format!("{}: {}", self.expr(k, 11, false), self.expr(v, 11, false)), None => format!("...{}", self.expr(k, 11, false)) }).collect::<Vec<_>>().join(", "))
            },
            Expr::Lambda(f) => format!("fn{}", self.fn_rest(f, 0, tail)),
            Expr::OpFn(o) => format!("({})", o.text()),
            Expr::OpUn(o) => format!("({})", o.text().trim()),
            Expr::OpRight(o, e) => format!("({} {})", o.text(), self.top(e)),
            Expr::OpLeft(e, o) => format!("({} {})", self.expr(e, 1, false), o.text()),
            Expr::GetField(e, f) => format!("{}->{}", self.expr(e, 1, false), f),
            Expr::FieldFn(f) => format!("(->{})", f),
            Expr::Assign(t, e) => format!("{} = {}", self.expr(t, 1, false), self.expr(e, 11, tail)),
            Expr::OpAssign(o, t, e) => format!("{} {}= {}", self.expr(t, 1, false), o.text(), self.expr(e, 11, tail)),
            Expr::PatAssign(p, e) => format!("{} = {}", p.iter().map(|p| show_pat(p, true)).collect::<Vec<_>>().join(", ") + if p.len() == 1 { "," } else { "" }, self.expr(e, 12, tail)),
            Expr::Exit => "exit".into(),
            Expr::Text(s, _) => s.clone(),
        }
    }

    fn params(&self, f: &FnDef) -> String {
        let mut v: Vec<String> = Vec::new();
        for p in &f.params {
            let s = show_pat(&p.pat, true);
            v.push(match &p.kind { ParamKind::Req => s, ParamKind::Opt => format!("{}?", s), ParamKind::Def(e) => format!("{} = {}", s, self.expr(e, 11, false)), ParamKind::Var => if s.starts_with('*') { s } else { format!("*{}", s) } });
        }
        v.join(", ")
    }

    fn fn_rest(&self, f: &FnDef, ind: usize, tail: bool) -> String {
        let p = self.params(f);
        match &f.body {
            BodyD::Expr(e) => format!("({}) -> {}", p, self.expr(e, 11, tail)),
            BodyD::Block(b) => format!("({}) {}", p, self.block(b, ind)),
        }
    }

    pub fn block(&self, b: &[Stmt], ind: usize) -> String {
        if self.semi { format!("{{ {} }}", self.stmts(b, 0)) }
        else if b.is_empty() { "{}".into() }
        else { format!("{{\n{}\n{}}}", self.stmts(b, ind + 1), "  ".repeat(ind)) }
    }

    pub fn stmts(&self, b: &[Stmt], ind: usize) -> String {
        let mut s = String::new();
        for (i, x) in b.iter().enumerate() {
            let t = self.stmt(x, ind);
            if i > 0 {
                if self.semi {
                    // an explicit empty statement already is the separator
                    s.push_str(if let Stmt::Semi = x { "" } else { "; " });
                } else {
                    // a statement that could continue the previous expression needs an explicit separator
                    let cont = ["-", "*", "not", "in", "is", ".", "^", "&", "|", "+", "/", "%", "<", ">"].iter().any(|p| t.starts_with(p));
                    s.push_str(if cont { "\n;" } else { "\n" });
                }
            }
            if !self.semi { s.push_str(&"  ".repeat(ind)); }
            s.push_str(&t);
        }
        s
    }

    fn opt_else(&self, e: &Option<Vec<Stmt>>, ind: usize) -> String { e.as_ref().map_or(String::new(), |b| format!(" else {}", self.block(b, ind))) }

    pub fn stmt(&self, s: &Stmt, ind: usize) -> String {
        match s {
            Stmt::Expr(e) => self.expr(e, 12, true),
            Stmt::Semi => ";".into(),
            Stmt::Let(v) => format!("let {}", v.iter().enumerate().map(|(i, (p, e))| match e {
                Some(e) => format!("{} = {}", show_pat(p, false), self.expr(e, 9, i + 1 == v.len())),
                None => show_pat(p, false),
            }).collect::<Vec<_>>().join(", ")),
            Stmt::Fn(d, f) => {
                let mut s = String::new();
                for x in d { s.push_str(&format!("@{}\n{}", self.expr(x, 1, false), "  ".repeat(ind))); }
                s.push_str(&format!("fn {}{}", f.name.as_ref().unwrap(), self.fn_rest(f, ind, true)));
                s
            }
            Stmt::If(v, e) => {
                let mut s = String::new();
                for (i, (c, b)) in v.iter().enumerate() { s.push_str(&format!("{}if {} {}", if i == 0 { "" } else { " el" }, self.expr(c, 11, false), self.block(b, ind))); }
                s + &self.opt_else(e, ind)
            }
            Stmt::While(c, b, e) => format!("while {} {}{}", self.expr(c, 11, false), self.block(b, ind), self.opt_else(e, ind)),
            Stmt::Do(b, c, e) => format!("do {}{}{}", self.block(b, ind), c.as_ref().map_or(String::new(), |c| format!(" while {}", self.expr(c, 11, false))), self.opt_else(e, ind)),
            Stmt::Loop(b) => format!("loop {}", self.block(b, ind)),
            Stmt::For(p, x, b, e) => format!("for {} in {} {}{}", show_pat(p, false), self.expr(x, 11, false), self.block(b, ind), self.opt_else(e, ind)),
            Stmt::Break => "break".into(),
            Stmt::Continue => "continue".into(),
            Stmt::Return(None) => if self.semi { "return".into() } else { "return;".into() },
            Stmt::Return(Some(e)) => format!("return {}", self.expr(e, 12, true)),
            Stmt::Assert(e, None) => format!("assert {}", self.expr(e, 11, true)),
            Stmt::Assert(e, Some(m)) => format!("assert {} : {}", self.expr(e, 11, false), self.expr(m, 11, true)),
            Stmt::Struct(d) => {
                let mut s = if d.module { format!("module {}", d.name) } else { format!("struct {}({})", d.name, d.fields.join(", ")) };
                if d.module || !d.methods.is_empty() {
                    s.push_str(" {\n");
                    for m in &d.methods { s.push_str(&format!("{}fn {}{}\n", "  ".repeat(ind + 1), m.name.as_ref().unwrap(), self.fn_rest(m, ind + 1, true))); }
                    s.push_str(&format!("{}}}", "  ".repeat(ind)));
                }
                s
            }
        }
    }

    pub fn program(&self, p: &[Stmt]) -> String { let mut s = self.stmts(p, 0); s.push('\n'); s }
}
