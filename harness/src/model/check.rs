//! Reference static checks: which names a program declares and uses illegally
use super::ast::*;
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Illegal { Duplicate(String), Native(String), Undeclared(String) }

impl Illegal { pub fn name(&self) -> &str { match self { Illegal::Duplicate(n) | Illegal::Native(n) | Illegal::Undeclared(n) => n } } }

#[derive(Default)]
struct Checker {
    /// functions, blocks, (name, visible)
    fns: Vec<Vec<Vec<(String, bool)>>>,
    late: Vec<String>,
    errs: Vec<Illegal>,
    natives: HashSet<&'static str>,
    /// members of the enclosing struct or module
    members: HashSet<String>,
    /// in a loop of the current function
    looping: bool,
    /// constructs that are not allowed where they are
    misplaced: Vec<&'static str>,
    field_refs: Vec<String>,
}

fn vars(p: &[Pat]) -> bool { p.iter().filter(|p| matches!(p, Pat::VarName(_) | Pat::VarEmpty)).count() <= 1 && p.iter().all(|p| match p { Pat::Terms(t) => vars(t), _ => true }) }
fn named(p: &Pat) -> bool { match p { Pat::Name(_) | Pat::VarName(_) | Pat::Target(_) => true, Pat::Terms(t) => t.iter().any(named), _ => false } }

/// Constructs of a program that are not allowed where they are
pub fn structure(p: &[Stmt]) -> Vec<&'static str> {
    let mut c = Checker { fns: vec![vec![vec![]]], ..Default::default() };
    c.stmts(p);
    c.misplaced
}


pub fn check(p: &[Stmt], natives: &[&'static str]) -> Vec<Illegal> { check_after(p, natives, &[]) }

/// Static checks of a program where some global names are declared already
pub fn check_after(p: &[Stmt], natives: &[&'static str], known: &[String]) -> Vec<Illegal> {
    let mut c = Checker { fns: vec![vec![vec![]]], natives: natives.iter().cloned().collect(), ..Default::default() };
    c.fns[0][0] = known.iter().map(|n| (n.clone(), true)).collect();
    c.stmts(p);
    for n in std::mem::take(&mut c.late) { c.errs.push(Illegal::Undeclared(n)); }
    c.errs
}

/// The fields a program declares
pub fn fields(p: &[Stmt]) -> Vec<String> { p.iter().flat_map(|s| match s { Stmt::Struct(d) => d.fields.iter().cloned().chain(d.methods.iter().filter_map(|m| m.name.clone())).collect(), _ => vec![] }).collect() }
/// The fields a program refers to
pub fn used_fields(p: &[Stmt]) -> Vec<String> {
    let mut c = Checker { fns: vec![vec![vec![]]], ..Default::default() };
    c.stmts(p);
    c.field_refs
}

impl Checker {
    fn declare(&mut self, n: &str, visible: bool) {
        if self.natives.contains(n) { self.errs.push(Illegal::Native(n.into())); return; }
        let top = self.fns.len() == 1 && self.fns[0].len() == 1;
        let b = self.fns.last_mut().unwrap().last_mut().unwrap();
        if b.iter().any(|(m, _)| m == n) { self.errs.push(Illegal::Duplicate(n.into())); return; }
        b.push((n.into(), visible));
        // a use inside a function denotes the first global of that name declared later
        if top { self.late.retain(|l| l != n); }
    }
    fn show(&mut self) { for (_, v) in self.fns.last_mut().unwrap().last_mut().unwrap() { *v = true; } }
    fn declare_pat(&mut self, p: &Pat, visible: bool) {
        match p { Pat::Name(n) | Pat::VarName(n) => self.declare(n, visible), Pat::Terms(t) => for p in t { self.declare_pat(p, visible) }, _ => () }
    }
    fn used(&mut self, n: &str) {
        if self.natives.contains(n) { return; }
        if self.fns.iter().flatten().flatten().any(|(m, v)| *v && m == n) { return; }
        if self.members.contains(n) { return; }
        if self.fns.len() > 1 { self.late.push(n.into()); } else { self.errs.push(Illegal::Undeclared(n.into())); }
    }
    fn bad(&mut self, b: bool, n: &'static str) { if b { self.misplaced.push(n); } }
    fn body(&mut self, s: &[Stmt]) { let l = std::mem::replace(&mut self.looping, true); self.block(s); self.looping = l; }
    fn block(&mut self, s: &[Stmt]) { self.fns.last_mut().unwrap().push(vec![]); self.stmts(s); self.fns.last_mut().unwrap().pop(); }
    fn stmts(&mut self, s: &[Stmt]) { for s in s { self.stmt(s); } }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Expr(e) => self.expr(e),
            Stmt::Semi => (),
            Stmt::Break | Stmt::Continue => self.bad(!self.looping, "break"),
            Stmt::Let(l) => for (p, e) in l { self.bad(match e { None => !matches!(p, Pat::Name(_)), Some(_) => !named(p) || matches!(p, Pat::VarName(_)) || matches!(p, Pat::Terms(t) if !vars(t)), }, "let"); self.declare_pat(p, false); if let Some(e) = e { self.expr(e); } self.show(); },
            Stmt::Fn(d, f) => { for e in d { self.expr(e); } self.declare(f.name.as_ref().unwrap(), true); self.func(f); }
            Stmt::If(b, e) => { for (c, s) in b { self.expr(c); self.block(s); } if let Some(e) = e { self.block(e); } }
            Stmt::While(c, s, e) => { self.expr(c); self.body(s); if let Some(e) = e { self.block(e); } }
            Stmt::Do(s, c, e) => { self.body(s); if let Some(c) = c { self.expr(c); } if let Some(e) = e { self.block(e); } }
            Stmt::Loop(s) => self.body(s),
            Stmt::For(p, it, s, e) => {
                self.fns.last_mut().unwrap().push(vec![]);
                self.declare_pat(p, false);
                self.expr(it);
                self.show();
                self.bad(matches!(p, Pat::Terms(t) if !vars(t)), "for");
                self.body(s);
                self.fns.last_mut().unwrap().pop();
                if let Some(e) = e { self.block(e); }
            }
            Stmt::Return(e) => { self.bad(self.fns.len() == 1, "return"); if let Some(e) = e { self.expr(e) } }
            Stmt::Assert(a, b) => { self.expr(a); if let Some(b) = b { self.expr(b); } }
            Stmt::Struct(d) => {
                self.bad(self.fns.len() > 1 || self.fns[0].len() > 1, "struct");
                self.declare(&d.name, true);
                let old = std::mem::take(&mut self.members);
                self.members = d.fields.iter().cloned().chain(d.methods.iter().map(|m| m.name.clone().unwrap())).collect();
                for m in &d.methods { self.func(m); }
                self.members = old;
            }
        }
    }
    fn func(&mut self, f: &FnDef) {
        let l = std::mem::replace(&mut self.looping, false);
        let late = f.params.iter().map(|p| match p.kind { ParamKind::Req => 0, ParamKind::Var => 2, _ => 1 }).collect::<Vec<_>>();
        self.bad(late.windows(2).any(|w| w[0] > w[1] || w[0] == 2) || f.params.iter().any(|p| matches!(&p.pat, Pat::Terms(t) if !vars(t))), "parameters");
        self.fns.push(vec![vec![]]);
        for p in &f.params { if let ParamKind::Def(e) = &p.kind { let fns = std::mem::take(self.fns.last_mut().unwrap()); self.fns.last_mut().unwrap().push(vec![]); self.expr(e); *self.fns.last_mut().unwrap() = fns; } }
        for p in &f.params { self.declare_pat(&p.pat, true); }
        match &f.body { BodyD::Expr(e) => self.expr(e), BodyD::Block(b) => self.block(b) }
        self.fns.pop();
        self.looping = l;
    }
    fn args(&mut self, a: &[Arg]) { for a in a { self.expr(&a.e); } }
    fn opts(&mut self, a: &[Option<Box<Expr>>; 3]) { for a in a.iter().flatten() { self.expr(a); } }
    fn pats(&mut self, t: &[Pat]) {
        for p in t { let n = match p { Pat::Target(Expr::Var(n)) | Pat::Name(n) | Pat::VarName(n) => n, _ => continue }; self.bad(super::natives::find(n).is_some(), "assignment to a native function"); }
        for p in t { match p { Pat::Target(e) => self.expr(e), Pat::Name(n) | Pat::VarName(n) => self.used(n), Pat::Terms(t) => self.pats(t), _ => () } }
    }
    fn expr(&mut self, e: &Expr) {
        if let Expr::Assign(a, _) | Expr::OpAssign(_, a, _) = e { if let Expr::Var(n) = &**a { self.bad(super::natives::find(n).is_some(), "assignment to a native function"); } }
        if let Expr::GetField(_, f) | Expr::FieldFn(f) = e { self.field_refs.push(f.clone()); }
        match e {
            Expr::Nil | Expr::Bool(_) | Expr::Int(_) | Expr::Imag(_) | Expr::Str(_) | Expr::OpFn(_) | Expr::OpUn(_) | Expr::FieldFn(_) | Expr::Exit => (),
            Expr::Var(n) => self.used(n),
            Expr::Un(_, a) | Expr::OpRight(_, a) | Expr::OpLeft(a, _) | Expr::GetField(a, _) | Expr::Text(_, a) => self.expr(a),
            Expr::Bin(_, a, b) | Expr::And(a, b) | Expr::Or(a, b) | Expr::Compose(a, b) | Expr::Index(a, b) | Expr::Assign(a, b) | Expr::OpAssign(_, a, b) => { self.expr(a); self.expr(b); }
            Expr::Cmp(a, r) => { self.expr(a); for (_, b) in r { self.expr(b); } }
            Expr::If(a, b, c) => { self.expr(a); self.expr(b); self.expr(c); }
            Expr::Call(f, a, _) => { self.expr(f); self.args(a); }
            Expr::Slice(a, s) => { self.expr(a); self.opts(s); }
            Expr::SliceLit(s) => self.opts(s),
            Expr::List(a) | Expr::Vector(a) | Expr::Set(a) => self.args(a),
            Expr::Dict(d) => for (k, v) in d { self.expr(k); if let Some(v) = v { self.expr(v); } },
            Expr::Lambda(f) => self.func(f),
            Expr::PatAssign(p, e) => { self.bad(!p.iter().any(named) || !vars(p), "pattern"); self.pats(p); self.expr(e); }
        }
    }
}
