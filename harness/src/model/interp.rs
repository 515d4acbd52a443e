//! Reference evaluator: a tree walker over the syntax trees of `ast`.
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::rc::Rc;

use super::ast::{Arg, BinOp, BodyD, Expr, FnDef, ParamKind, Pat, Stmt, UnOp};
use super::natives;
use super::ops::{self, msg, msgv, R};
use super::value::*;

/// Why an evaluation stopped
#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    /// an error report with this first line
    Msg(String),
    /// an error report whose first line begins with this
    Prefix(String),
    /// some error report; the wording is not specified
    Any,
    Exit,
    /// the model does not define what happens here
    Skip,
}

pub type Slot = Rc<RefCell<V>>;

#[derive(Clone)]
pub struct Env(Option<Rc<Node>>);
struct Node { kind: Kind, next: Env }
enum Kind { Bind(String, Slot), Methods(Rc<TypeM>) }

impl fmt::Debug for Env { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "env") } }

impl Env {
    pub fn empty() -> Env { Env(None) }
    fn bind(&self, n: &str, s: Slot) -> Env { Env(Some(Rc::new(Node { kind: Kind::Bind(n.into(), s), next: self.clone() }))) }
    /// The bindings of names that occur in a text
    fn only(&self, text: &str) -> Env {
        let names: std::collections::HashSet<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
        let mut v = vec![];
        let mut e = self;
        // `self` may be captured by the name of a field or method
        while let Some(n) = &e.0 { match &n.kind { Kind::Bind(x, _) if !names.contains(x.as_str()) && x != "self" => {} _ => v.push(n.clone()) } e = &n.next; }
        let mut out = Env(None);
        for n in v.into_iter().rev() { out = match &n.kind { Kind::Bind(x, s) => out.bind(x, s.clone()), Kind::Methods(t) => Env(Some(Rc::new(Node { kind: Kind::Methods(t.clone()), next: out }))) }; }
        out
    }
    fn methods(t: Rc<TypeM>) -> Env { Env(Some(Rc::new(Node { kind: Kind::Methods(t), next: Env(None) }))) }
}

pub enum Flow { Next, Break, Continue, Return(V) }

enum Loc { Slot(Slot), Field(V, usize), Value(V) }

pub struct Interp {
    pub out: String,
    pub stdin: String,
    pub globals: HashMap<String, Slot>,
    pub fuel: usize,
    depth: usize,
    ids: usize,
    slots: Vec<Slot>,
    /// Closures hold only the variables they may refer to
    narrow: bool,
    types: Vec<Rc<TypeM>>,
    pub fields: Vec<String>,
}

impl Drop for Interp {
    fn drop(&mut self) {
        for s in self.slots.drain(..) { if let Ok(mut s) = s.try_borrow_mut() { *s = V::Nil; } }
        for t in self.types.drain(..) { t.methods.borrow_mut().clear(); }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome { pub out: String, pub end: Result<(), Er> }

pub fn run(p: &[Stmt]) -> Outcome {
    let mut it = Interp::new();
    UNSPECIFIED.with(|u| u.set(false));
    let mut end = it.program(p);
    if UNSPECIFIED.with(|u| u.get()) { end = Err(Er::Skip); }
    Outcome { out: std::mem::take(&mut it.out), end }
}

/// Whether the values of a program have no cycles of references, as far as the evaluator knows
pub fn acyclic(p: &[Stmt]) -> bool {
    let (blocks, _) = crate::alloc::live();
    let ok = {
        let mut it = Interp::new();
        it.narrow = true;
        UNSPECIFIED.with(|u| u.set(false));
        let end = it.program(p);
        let sure = end != Err(Er::Skip) && !UNSPECIFIED.with(|u| u.get());
        drop(end);
        let slots: Vec<std::rc::Weak<RefCell<V>>> = it.slots.drain(..).map(|s| Rc::downgrade(&s)).collect();
        drop(it);
        let mut ok = sure;
        for s in &slots { if let Some(s) = s.upgrade() { ok = false; if let Ok(mut s) = s.try_borrow_mut() { *s = V::Nil; } } }
        ok
    };
    ok && crate::alloc::live().0 == blocks
}

type Ex = Result<(Flow, Option<V>), Er>;

impl Interp {
    pub fn new() -> Interp {
        Interp { out: String::new(), stdin: String::new(), globals: HashMap::new(), fuel: 20_000, depth: 0, ids: 1, slots: vec![], narrow: false, types: vec![], fields: vec![] }
    }
    pub fn next_id(&mut self) -> usize { self.ids += 1; self.ids }

    pub fn program(&mut self, p: &[Stmt]) -> Result<(), Er> {
        self.fields = super::check::fields(p);
        let mut env = Env::empty();
        match self.stmts(p, &mut env, true)? { (Flow::Next, _) => Ok(()), _ => Err(Er::Skip) }
    }

    /// One input of an interactive session: the value of a final expression statement
    pub fn input(&mut self, p: &[Stmt]) -> Result<Option<V>, Er> {
        (self.fuel, self.depth) = (20_000, 0);
        self.fields.extend(super::check::fields(p));
        UNSPECIFIED.with(|u| u.set(false));
        let mut env = Env::empty();
        let r = self.stmts(p, &mut env, true);
        if UNSPECIFIED.with(|u| u.get()) { return Err(Er::Skip); }
        match r? { (Flow::Next, v) => Ok(v), _ => Err(Er::Skip) }
    }

    fn slot(&mut self, v: V) -> Slot { let s = Rc::new(RefCell::new(v)); self.slots.push(s.clone()); s }
    fn tick(&mut self) -> Result<(), Er> { if self.fuel == 0 { return Err(Er::Skip); } self.fuel -= 1; Ok(()) }

    fn declare(&mut self, env: &mut Env, global: bool, n: &str, v: V) {
        let s = self.slot(v);
        if global { self.globals.insert(n.to_string(), s); } else { *env = env.bind(n, s); }
    }

    // -------------------------------------------------------------------------------------------- names

    fn lookup(&mut self, env: &Env, name: &str) -> Result<Loc, Er> {
        if let Some(n) = natives::find(name) { return Ok(Loc::Value(V::Native(n))); }
        let mut e = env.clone();
        while let Some(n) = e.0.clone() {
            match &n.kind {
                Kind::Bind(k, s) => if k == name { return Ok(Loc::Slot(s.clone())); },
                Kind::Methods(t) => {
                    let field = t.fields.iter().position(|f| f == name);
                    let method = t.methods.borrow().iter().find(|m| m.0 == name).map(|m| m.1.clone());
                    if let Some(i) = field {
                        return match self.lookup(env, "self")? { Loc::Slot(s) => { let v = s.borrow().clone(); Ok(Loc::Field(v, i)) } _ => Err(Er::Skip) };
                    }
                    if let Some(m) = method {
                        if !m.def.is_self { return Ok(Loc::Value(V::Func(m))); }
                        return match self.lookup(env, "self")? { Loc::Slot(s) => { let v = s.borrow().clone(); Ok(Loc::Value(V::Partial(m, Rc::new(vec![v])))) } _ => Err(Er::Skip) };
                    }
                }
            }
            e = n.next.clone();
        }
        match self.globals.get(name) {
            Some(s) => Ok(Loc::Slot(s.clone())),
            None => msg(format!("ValueError: '{}' was referenced but has not been declared yet", name)),
        }
    }

    fn load(&mut self, env: &Env, name: &str) -> R {
        match self.lookup(env, name)? {
            Loc::Slot(s) => Ok(s.borrow().clone()),
            Loc::Value(v) => Ok(v),
            Loc::Field(V::Struct(s), i) => s.values.borrow().get(i).cloned().ok_or(Er::Skip),
            Loc::Field(..) => Err(Er::Skip),
        }
    }

    fn store(&mut self, env: &Env, name: &str, v: V) -> Result<(), Er> {
        match self.lookup(env, name)? {
            Loc::Slot(s) => { *s.borrow_mut() = v; Ok(()) }
            Loc::Field(V::Struct(s), i) => { s.values.borrow_mut()[i] = v; Ok(()) }
            _ => Err(Er::Skip),
        }
    }

    // -------------------------------------------------------------------------------------------- statements

    /// Executes in place: declarations extend `env`. The value is that of a final expression statement.
    pub fn stmts(&mut self, b: &[Stmt], env: &mut Env, global: bool) -> Ex {
        let mut last = None;
        for s in b {
            last = None;
            self.tick()?;
            match self.stmt(s, env, global, &mut last)? { Flow::Next => {} f => return Ok((f, None)) }
        }
        Ok((Flow::Next, last))
    }

    fn block(&mut self, b: &[Stmt], env: &Env) -> Result<Flow, Er> { let mut e = env.clone(); Ok(self.stmts(b, &mut e, false)?.0) }

    fn closure(&mut self, def: &Rc<FnDef>, env: &Env) -> V { let id = self.next_id(); let env = if self.narrow { env.only(&format!("{:?}", def)) } else { env.clone() }; V::Func(Rc::new(FuncM { def: def.clone(), env, id })) }

    fn stmt(&mut self, s: &Stmt, env: &mut Env, global: bool, last: &mut Option<V>) -> Result<Flow, Er> {
        match s {
            Stmt::Semi => {}
            Stmt::Expr(e) => *last = Some(self.eval(e, env)?),
            Stmt::Let(v) => {
                for (p, e) in v {
                    let x = match e { Some(e) => Some(self.eval(e, env)?), None => None };
                    self.declare_pat(p, env, global);
                    if let Some(x) = x {
                        match p { Pat::Name(n) => self.store(env, n, x)?, p => { let ts = self.targets(p, env)?; self.destructure(&ts, &x, env)? } }
                    }
                }
            }
            Stmt::Fn(dec, def) => {
                let name = def.name.as_ref().unwrap();
                self.declare(env, global, name, V::Nil);
                // `fn f() ..`, then `f = d(f)`: all decorators in order, then applied innermost first
                let mut f = self.closure(def, env);
                self.store(env, name, f.clone())?;
                let mut ds = Vec::new();
                for d in dec { ds.push(self.eval(d, env)?); }
                for d in ds.into_iter().rev() { f = self.call(&d, vec![f])?; }
                self.store(env, name, f)?;
            }
            Stmt::If(v, e) => {
                for (c, b) in v { if self.eval(c, env)?.truthy() { return self.block(b, env); } }
                if let Some(b) = e { return self.block(b, env); }
            }
            Stmt::While(c, b, e) => {
                while self.eval(c, env)?.truthy() {
                    self.tick()?;
                    match self.block(b, env)? { Flow::Break => return Ok(Flow::Next), f @ Flow::Return(_) => return Ok(f), _ => {} }
                }
                if let Some(b) = e { return self.block(b, env); }
            }
            Stmt::Do(b, c, e) => {
                loop {
                    self.tick()?;
                    match self.block(b, env)? { Flow::Break => return Ok(Flow::Next), f @ Flow::Return(_) => return Ok(f), Flow::Continue => continue, Flow::Next => {} }
                    match c { Some(c) => if !self.eval(c, env)?.truthy() { break; }, None => break }
                }
                if let Some(b) = e { return self.block(b, env); }
            }
            Stmt::Loop(b) => loop {
                self.tick()?;
                match self.block(b, env)? { Flow::Break => break, f @ Flow::Return(_) => return Ok(f), _ => {} }
            },
            Stmt::For(p, x, b, e) => {
                let x = self.eval(x, env)?;
                let mut items = natives::It::new(&x)?;
                while let Some(v) = items.next() {
                    self.tick()?;
                    let mut inner = env.clone();
                    self.declare_pat(p, &mut inner, false);
                    match p { Pat::Name(n) => self.store(&inner, n, v)?, Pat::Empty => {}, p => { let ts = self.targets(p, &inner)?; self.destructure(&ts, &v, &inner)? } }
                    match self.block(b, &inner)? { Flow::Break => return Ok(Flow::Next), f @ Flow::Return(_) => return Ok(f), _ => {} }
                }
                if let Some(b) = e { return self.block(b, env); }
            }
            Stmt::Break => return Ok(Flow::Break),
            Stmt::Continue => return Ok(Flow::Continue),
            Stmt::Return(e) => { let v = match e { Some(e) => self.eval(e, env)?, None => V::Nil }; return Ok(Flow::Return(v)); }
            Stmt::Assert(e, m) => {
                let mut why = None;
                let ok = match e {
                    Expr::Cmp(a, v) if v.len() == 1 => {
                        let (x, y) = (self.eval(a, env)?, self.eval(&v[0].1, env)?);
                        let r = ops::binary(v[0].0, &x, &y)?.truthy();
                        if !r { why = Some(format!("Expected {} {} {}", repr(&x), v[0].0.text(), repr(&y))); }
                        r
                    }
                    e => self.eval(e, env)?.truthy(),
                };
                if !ok {
                    return match m {
                        Some(m) => { let m = self.eval(m, env)?; msg(format!("Assertion Failed: {}", to_str(&m)).lines().next().unwrap().to_string()) }
                        None => msg(match why { Some(w) => format!("Assertion Failed: {}", w), None => "Assertion Failed:".into() }),
                    };
                }
            }
            Stmt::Struct(d) => {
                let id = self.next_id();
                let t = Rc::new(TypeM { name: d.name.clone(), fields: d.fields.clone(), methods: Default::default(), module: d.module, id });
                self.types.push(t.clone());
                for m in &d.methods {
                    let id = self.next_id();
                    let f = Rc::new(FuncM { def: m.clone(), env: Env::methods(t.clone()), id });
                    t.methods.borrow_mut().push((m.name.clone().unwrap(), f));
                }
                self.declare(env, true, &d.name, V::Type(t));
            }
        }
        Ok(Flow::Next)
    }

    // -------------------------------------------------------------------------------------------- patterns

    fn declare_pat(&mut self, p: &Pat, env: &mut Env, global: bool) {
        match p {
            Pat::Name(n) | Pat::VarName(n) => self.declare(env, global, n, V::Nil),
            Pat::Terms(t) => for p in t { self.declare_pat(p, env, global) },
            _ => {}
        }
    }

    /// Evaluate the sub-expressions of the targets of a pattern, left to right
    fn targets(&mut self, p: &Pat, env: &Env) -> Result<Tgt, Er> {
        Ok(match p {
            Pat::Name(n) => Tgt::Name(n.clone()),
            Pat::VarName(n) => Tgt::Rest(Some(n.clone())),
            Pat::Empty => Tgt::Ignore,
            Pat::VarEmpty => Tgt::Rest(None),
            Pat::Terms(t) => { let mut v = Vec::new(); for p in t { v.push(self.targets(p, env)?); } Tgt::Terms(v) }
            Pat::Target(Expr::Var(n)) => Tgt::Name(n.clone()),
            Pat::Target(Expr::Index(a, i)) => { let a = self.eval(a, env)?; let i = self.eval(i, env)?; Tgt::Index(a, i) }
            Pat::Target(Expr::GetField(a, f)) => { let a = self.eval(a, env)?; Tgt::Field(a, f.clone()) }
            Pat::Target(_) => return Err(Er::Skip),
        })
    }

    fn destructure(&mut self, t: &Tgt, v: &V, env: &Env) -> Result<(), Er> {
        let terms = match t { Tgt::Terms(t) => t, t => return self.destructure(&Tgt::Terms(vec![t.clone()]), v, env) };
        let len = |v: &V| -> Result<usize, Er> {
            match v {
                V::Str(s) => Ok(s.chars().count()),
                V::List(s) | V::Vector(s) => Ok(s.borrow().len()),
                v if v.is_iterable() => Ok(natives::iter(v)?.len()),
                v => msgv(&[v], |e| format!("TypeError: Expected {} to be an iterable", e[0])),
            }
        };
        let n = len(v)?;
        let rest = terms.iter().position(|t| matches!(t, Tgt::Rest(_)));
        let k = terms.len() - rest.is_some() as usize;
        if rest.is_some() && n < k { return msgv(&[v], |e| format!("ValueError: Cannot unpack {} with length {}, expected at least {} elements", e[0], n, k)); }
        if rest.is_none() && n != k { return msgv(&[v], |e| format!("ValueError: Cannot unpack {} with length {}, expected exactly {} elements", e[0], n, k)); }
        // any other iterable: its elements, in order
        let elements;
        let v = match v { V::Str(_) | V::List(_) | V::Vector(_) => v, _ => { if rest.is_some() { return Err(Er::Skip); } elements = V::List(super::value::seq(natives::iter(v)?)); &elements } };
        // right to left, reading the value as each target is assigned
        for (i, t) in terms.iter().enumerate().rev() {
            let pos = if rest.map_or(false, |r| i > r) { n - (terms.len() - i) } else { i };
            let x = match t {
                Tgt::Ignore | Tgt::Rest(None) => continue,
                Tgt::Rest(Some(_)) => {
                    let end = n - (terms.len() - 1 - i);
                    natives::get_slice(v, &[V::Int(i as i64), V::Int(end as i64), V::Nil])?
                }
                _ => natives::get_index(v, &V::Int(pos as i64))?,
            };
            match t {
                Tgt::Name(n) | Tgt::Rest(Some(n)) => self.store(env, n, x)?,
                Tgt::Terms(_) => self.destructure(t, &x, env)?,
                Tgt::Index(a, i) => natives::set_index(a, i, x)?,
                Tgt::Field(a, f) => set_field(a, f, x)?,
                _ => {}
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------------------------- calls

    pub fn call(&mut self, f: &V, args: Vec<V>) -> R {
        self.tick()?;
        match f {
            V::Func(fm) => self.call_func(fm, &[], args),
            V::Partial(fm, b) => { let b = b.clone(); self.call_func(fm, &b, args) }
            V::Native(n) => natives::call(self, *n, &[], args),
            V::PartialNative(n, b) => { let b = b.clone(); natives::call(self, *n, &b, args) }
            V::Type(t) => {
                if t.module { return natives::not_fn(f); }
                if args.len() != t.fields.len() { return msg(format!("Incorrect number of arguments for {}, got {}", repr(f), args.len())); }
                Ok(V::Struct(Rc::new(StructM { ty: t.clone(), values: RefCell::new(args) })))
            }
            V::List(s) => {
                if args.len() != 1 { return natives::not_fn(f); }
                let n = s.borrow().len();
                if n != 1 { return msg(format!("ValueError: Evaluating an index must have len = 1, got len = {}", n)); }
                let i = s.borrow()[0].clone();
                self.get_at(&args[0], &i)
            }
            V::Slice(p) => { if args.len() != 1 { return natives::not_fn(f); } natives::get_slice(&args[0], p) }
            V::GetField(n) => { if args.len() != 1 { return Err(Er::Any); } self.get_field(&args[0], n) }
            V::Memo(m) => {
                if let Some((_, v)) = m.cache.borrow().iter().find(|(a, _)| seq_eq(a, &args)) { return Ok(v.clone()); }
                let v = self.call(&m.func.clone(), args.clone())?;
                m.cache.borrow_mut().push((args, v.clone()));
                Ok(v)
            }
            f => natives::not_fn(f),
        }
    }

    fn call_func(&mut self, f: &Rc<FuncM>, bound: &[V], args: Vec<V>) -> R {
        let mut all = bound.to_vec();
        let fresh = args.len();
        all.extend(args);
        let (min, max) = (f.min_args(), f.def.params.len());
        if all.len() < min { return Ok(if all.is_empty() { V::Func(f.clone()) } else { let _ = fresh; V::Partial(f.clone(), Rc::new(all)) }); }
        if all.len() > max && !f.variadic() { return msg(format!("Incorrect number of arguments for {}, got {}", func_repr(f), all.len())); }
        if self.depth > 120 { return Err(Er::Skip); }
        self.depth += 1;
        let r = self.enter(f, all);
        self.depth -= 1;
        r
    }

    fn enter(&mut self, f: &Rc<FuncM>, mut all: Vec<V>) -> R {
        let def = f.def.clone();
        let mut env = f.env.clone();
        let mut vals = Vec::new();
        for (i, p) in def.params.iter().enumerate() {
            if let ParamKind::Var = p.kind { vals.push(vector(if i < all.len() { all.split_off(i) } else { vec![] })); continue; }
            if i < all.len() { vals.push(all[i].clone()); continue; }
            vals.push(match &p.kind { ParamKind::Def(e) => self.eval(e, &f.env)?, _ => V::Nil });
        }
        for p in &def.params { match (&p.pat, &p.kind) { (Pat::VarName(n), _) => self.declare(&mut env, false, n, V::Nil), (p, _) => self.declare_pat(p, &mut env, false) } }
        // simple parameters first, then the patterns, in order
        for (p, v) in def.params.iter().zip(&vals) { if let Pat::Name(n) | Pat::VarName(n) = &p.pat { self.store(&env, n, v.clone())?; } }
        for (p, v) in def.params.iter().zip(&vals) { if let Pat::Terms(_) = &p.pat { let t = self.targets(&p.pat, &env)?; self.destructure(&t, v, &env)?; } }
        match &def.body {
            BodyD::Expr(e) => self.eval(e, &env),
            BodyD::Block(b) => match self.stmts(b, &mut env, false)? {
                (Flow::Return(v), _) => Ok(v),
                (Flow::Next, v) => Ok(v.unwrap_or(V::Nil)),
                _ => Err(Er::Skip),
            },
        }
    }

    fn args(&mut self, v: &[Arg], env: &Env) -> Result<Vec<V>, Er> {
        let mut r = Vec::new();
        for a in v {
            let x = self.eval(&a.e, env)?;
            if a.unroll { r.extend(natives::iter(&x)?); } else { r.push(x); }
        }
        Ok(r)
    }

    pub fn eval_text(&mut self, t: &str) -> R {
        let invalid = || Err(Er::Prefix("Encountered compilation error(s) within 'eval':".into()));
        let e = match super::parse::parse_eval(t) { Some(e) => e, None => return invalid() };
        let p = [Stmt::Expr(e)];
        if super::check::used_fields(&p).iter().any(|f| !self.fields.contains(f)) { return invalid(); }
        if !super::check::check(&p, super::natives::names()).is_empty() || !super::check::structure(&p).is_empty() { return invalid(); }
        let Stmt::Expr(e) = &p[0] else { unreachable!() };
        let saved = std::mem::take(&mut self.globals);
        let r = self.eval(e, &Env::empty());
        self.globals = saved;
        match r { Err(Er::Msg(m)) if m.contains("has not been declared") => Err(Er::Any), r => r }
    }

    // -------------------------------------------------------------------------------------------- expressions

    pub fn eval(&mut self, e: &Expr, env: &Env) -> R {
        Ok(match e {
            Expr::Nil => V::Nil,
            Expr::Bool(b) => V::Bool(*b),
            Expr::Int(i) => V::Int(*i),
            Expr::Imag(i) => cx(0, *i),
            Expr::Str(s) => string(s),
            Expr::Var(n) => self.load(env, n)?,
            Expr::Un(o, x) => { let x = self.eval(x, env)?; ops::unary(*o, &x)? }
            Expr::Bin(o, a, b) => {
                let x = self.eval(a, env)?;
                let y = self.eval(b, env)?;
                if *o == BinOp::Dot { self.call(&y, vec![x])? } else { ops::binary(*o, &x, &y)? }
            }
            Expr::Cmp(a, v) => {
                let mut x = self.eval(a, env)?;
                let mut r = V::Bool(true);
                for (o, b) in v {
                    let y = self.eval(b, env)?;
                    r = ops::binary(*o, &x, &y)?;
                    if !r.truthy() { return Ok(r); }
                    x = y;
                }
                r
            }
            Expr::And(a, b) => { let x = self.eval(a, env)?; if x.truthy() { self.eval(b, env)? } else { x } }
            Expr::Or(a, b) => { let x = self.eval(a, env)?; if x.truthy() { x } else { self.eval(b, env)? } }
            Expr::If(c, a, b) => if self.eval(c, env)?.truthy() { self.eval(a, env)? } else { self.eval(b, env)? },
            Expr::Call(f, v, _) => { let f = self.eval(f, env)?; let a = self.args(v, env)?; self.call(&f, a)? }
            Expr::Compose(x, f) => { let x = self.eval(x, env)?; let f = self.eval(f, env)?; self.call(&f, vec![x])? }
            Expr::Index(a, i) => { let a = self.eval(a, env)?; let i = self.eval(i, env)?; self.get_at(&a, &i)? }
            Expr::Slice(a, p) => {
                let a = self.eval(a, env)?;
                let mut q = [V::Nil, V::Nil, V::Nil];
                for i in 0..3 { if let Some(x) = &p[i] { q[i] = self.eval(x, env)?; } }
                natives::get_slice(&a, &q)?
            }
            Expr::SliceLit(p) => {
                let mut q = [V::Nil, V::Nil, V::Nil];
                for i in 0..3 { if let Some(x) = &p[i] { q[i] = self.eval(x, env)?; } }
                let bad: Vec<&V> = q.iter().filter(|v| !matches!(v, V::Nil) && !v.is_int()).collect();
                if bad.len() > 1 { return Err(Er::Any); }
                if let Some(b) = bad.first() { return msgv(&[b], |e| format!("TypeError: Expected {} to be a int", e[0])); }
                V::Slice(Rc::new(q))
            }
            Expr::List(v) => list(self.args(v, env)?),
            Expr::Vector(v) => vector(self.args(v, env)?),
            Expr::Set(v) => set(self.args(v, env)?),
            Expr::Dict(v) => {
                let mut d = Vec::new();
                for (k, x) in v {
                    let k = self.eval(k, env)?;
                    match x {
                        Some(x) => { let x = self.eval(x, env)?; d.push((k, x)); }
                        None => for p in natives::iter(&k)? {
                            match &p { V::List(s) | V::Vector(s) if s.borrow().len() == 2 => { let s = s.borrow(); d.push((s[0].clone(), s[1].clone())) } _ => return Err(Er::Skip) }
                        },
                    }
                }
                dict(d)
            }
            Expr::Lambda(d) => self.closure(d, env),
            Expr::OpFn(o) => V::Native(Nat::Op(*o, false)),
            Expr::OpUn(UnOp::Neg) => V::Native(Nat::Op(BinOp::Sub, false)),
            Expr::OpUn(UnOp::Not) => V::Native(Nat::UnNot),
            Expr::OpUn(UnOp::LNot) => V::Native(Nat::UnLogicalNot),
            Expr::OpRight(o, x) => { let x = self.eval(x, env)?; V::PartialNative(Nat::Op(*o, true), Rc::new(vec![x])) }
            Expr::OpLeft(x, o) => { let x = self.eval(x, env)?; V::PartialNative(Nat::Op(*o, false), Rc::new(vec![x])) }
            Expr::GetField(x, f) => { let x = self.eval(x, env)?; self.get_field(&x, f)? }
            Expr::FieldFn(f) => V::GetField(Rc::from(f.as_str())),
            Expr::Assign(t, x) => match &**t {
                Expr::Var(n) => { let v = self.eval(x, env)?; self.store(env, n, v.clone())?; v }
                Expr::Index(a, i) => { let a = self.eval(a, env)?; let i = self.eval(i, env)?; let v = self.eval(x, env)?; natives::set_index(&a, &i, v)?; a }
                Expr::GetField(a, f) => { let a = self.eval(a, env)?; let v = self.eval(x, env)?; set_field(&a, f, v.clone())?; v }
                _ => return Err(Er::Skip),
            },
            Expr::OpAssign(o, t, x) => match &**t {
                Expr::Var(n) => { let cur = self.load(env, n)?; let y = self.eval(x, env)?; let v = self.apply_op(*o, cur, y)?; self.store(env, n, v.clone())?; v }
                Expr::Index(a, i) => {
                    let a = self.eval(a, env)?;
                    let i = self.eval(i, env)?;
                    let cur = self.get_at(&a, &i)?;
                    let y = self.eval(x, env)?;
                    let v = self.apply_op(*o, cur, y)?;
                    natives::set_index(&a, &i, v)?;
                    a
                }
                Expr::GetField(a, f) => {
                    let a = self.eval(a, env)?;
                    let cur = self.get_field(&a, f)?;
                    let y = self.eval(x, env)?;
                    let v = self.apply_op(*o, cur, y)?;
                    set_field(&a, f, v.clone())?;
                    v
                }
                _ => return Err(Er::Skip),
            },
            Expr::PatAssign(p, x) => {
                let t = self.targets(&Pat::Terms(p.clone()), env)?;
                let v = self.eval(x, env)?;
                self.destructure(&t, &v, env)?;
                v
            }
            Expr::Exit => return Err(Er::Exit),
            Expr::Text(_, e) => self.eval(e, env)?,
        })
    }

    /// Reading an element: a missing key of a dictionary with a default inserts the default
    pub fn get_at(&mut self, a: &V, i: &V) -> R {
        if let V::Dict(d) = a {
            let (hit, def) = { let d = d.borrow(); (d.find(i).is_some(), d.default.clone()) };
            if let (false, Some(f)) = (hit, def) {
                let v = match &f {
                    V::Func(_) | V::Partial(..) | V::Type(_) | V::Memo(_) | V::Native(_) => self.call(&f, vec![])?,
                    _ => f.clone(),
                };
                natives::put_new(d, i, v)?;
            }
        }
        natives::get_index(a, i)
    }

    fn apply_op(&mut self, o: BinOp, a: V, b: V) -> R { if o == BinOp::Dot { self.call(&b, vec![a]) } else { ops::binary(o, &a, &b) } }

    pub fn get_field(&mut self, v: &V, f: &str) -> R {
        match v {
            V::Struct(s) => {
                if let Some(i) = s.ty.fields.iter().position(|x| x == f) { return Ok(s.values.borrow()[i].clone()); }
                match s.ty.methods.borrow().iter().find(|m| m.0 == f) {
                    Some((_, m)) if m.def.is_self => Ok(V::Partial(m.clone(), Rc::new(vec![v.clone()]))),
                    _ => Err(Er::Any),
                }
            }
            V::Type(t) => {
                if let Some((_, m)) = t.methods.borrow().iter().find(|m| m.0 == f) { return Ok(V::Func(m.clone())); }
                if t.fields.iter().any(|x| x == f) { return Ok(V::GetField(Rc::from(f))); }
                Err(Er::Any)
            }
            _ => Err(Er::Any),
        }
    }
}

pub fn set_field(v: &V, f: &str, x: V) -> Result<(), Er> {
    match v {
        V::Struct(s) => match s.ty.fields.iter().position(|y| y == f) { Some(i) => { s.values.borrow_mut()[i] = x; Ok(()) } None => Err(Er::Any) },
        _ => Err(Er::Any),
    }
}

#[derive(Clone, Debug)]
enum Tgt { Name(String), Rest(Option<String>), Ignore, Terms(Vec<Tgt>), Index(V, V), Field(V, String) }
