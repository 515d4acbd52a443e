//! Reference values
use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;

use super::ast::{BinOp, FnDef, ParamKind};
use super::num::{Big, Rat};

pub type Seq = Rc<RefCell<Vec<V>>>;

#[derive(Clone, Debug)]
pub enum V {
    Nil,
    Bool(bool),
    Int(i64),
    /// imaginary part is never zero
    Cx(i64, i64),
    Rat(Rc<Rat>),
    Str(Rc<str>),
    List(Seq),
    Vector(Seq),
    /// insertion ordered, unique under equality
    Set(Seq),
    Dict(Rc<RefCell<DictM>>),
    Heap(Seq),
    Range(i64, i64, i64),
    Enumerate(Rc<V>),
    Slice(Rc<[V; 3]>),
    Native(Nat),
    PartialNative(Nat, Rc<Vec<V>>),
    Func(Rc<FuncM>),
    Partial(Rc<FuncM>, Rc<Vec<V>>),
    Struct(Rc<StructM>),
    Type(Rc<TypeM>),
    Memo(Rc<MemoM>),
    GetField(Rc<str>),
}

#[derive(Debug, Default)]
pub struct DictM { pub kv: Vec<(V, V)>, pub default: Option<V> }

/// A native function: a library name, or an operator (unary or binary, possibly with swapped operands)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Nat {
    Lib(&'static str),
    Op(BinOp, bool),
    UnNot,
    UnLogicalNot,
}

#[derive(Debug)]
pub struct FuncM {
    pub def: Rc<FnDef>,
    pub env: super::interp::Env,
    /// unique per evaluation of the definition
    pub id: usize,
}

impl FuncM {
    pub fn name(&self) -> String { self.def.name.clone().unwrap_or_else(|| "_".into()) }
    pub fn min_args(&self) -> usize { self.def.params.iter().filter(|p| matches!(p.kind, ParamKind::Req)).count() }
    pub fn variadic(&self) -> bool { self.def.params.iter().any(|p| matches!(p.kind, ParamKind::Var)) }
}

#[derive(Debug)]
pub struct TypeM {
    pub name: String,
    pub fields: Vec<String>,
    pub methods: RefCell<Vec<(String, Rc<FuncM>)>>,
    pub module: bool,
    pub id: usize,
}

#[derive(Debug)]
pub struct StructM { pub ty: Rc<TypeM>, pub values: RefCell<Vec<V>> }

#[derive(Debug)]
pub struct MemoM { pub func: V, pub cache: RefCell<Vec<(Vec<V>, V)>>, pub id: usize }

pub fn seq(v: Vec<V>) -> Seq { Rc::new(RefCell::new(v)) }
pub fn list(v: Vec<V>) -> V { V::List(seq(v)) }
pub fn vector(v: Vec<V>) -> V { V::Vector(seq(v)) }
pub fn string<S: AsRef<str>>(s: S) -> V { V::Str(Rc::from(s.as_ref())) }
pub fn cx(re: i64, im: i64) -> V { if im == 0 { V::Int(super::num::wrap63(re as i128)) } else { V::Cx(re, im) } }
pub fn rat(r: Rat) -> V { V::Rat(Rc::new(r)) }
pub fn set(vs: impl IntoIterator<Item = V>) -> V {
    let mut r: Vec<V> = Vec::new();
    for v in vs { if !r.iter().any(|x| eq(x, &v)) { r.push(v); } }
    V::Set(seq(r))
}
pub fn dict(kv: impl IntoIterator<Item = (V, V)>) -> V {
    let mut d = DictM::default();
    for (k, v) in kv { d.put(k, v); }
    V::Dict(Rc::new(RefCell::new(d)))
}

impl DictM {
    pub fn find(&self, k: &V) -> Option<usize> { self.kv.iter().position(|(x, _)| eq(x, k)) }
    pub fn put(&mut self, k: V, v: V) {
        match self.find(&k) { Some(i) => self.kv[i].1 = v, None => self.kv.push((k, v)) }
    }
}

impl V {
    pub fn type_name(&self) -> &'static str {
        match self {
            V::Nil => "nil", V::Bool(_) => "bool", V::Int(_) => "int", V::Cx(..) => "complex", V::Rat(_) => "rational", V::Str(_) => "str",
            V::List(_) => "list", V::Vector(_) => "vector", V::Set(_) => "set", V::Dict(_) => "dict", V::Heap(_) => "heap",
            V::Range(..) => "range", V::Enumerate(_) => "enumerate", V::Slice(_) => "slice", V::Native(_) => "native function",
            V::PartialNative(..) => "partial native function", V::Func(_) => "function", V::Partial(..) => "partial function",
            V::Struct(_) => "struct", V::Type(_) => "struct type", V::Memo(_) => "memoized", V::GetField(_) => "get field",
        }
    }
    /// The wording of a type in an error message, where the documentation leaves it open (function or closure) it is unknown
    pub fn type_known(&self) -> Option<&'static str> { if let V::Func(_) = self { None } else { Some(self.type_name()) } }
    /// `'x' of type 't'` as used by error messages
    pub fn err(&self) -> Option<String> { Some(format!("'{}' of type '{}'", to_str(self), self.type_known()?)) }
    pub fn truthy(&self) -> bool {
        match self {
            V::Nil => false,
            V::Bool(b) => *b,
            V::Int(i) => *i != 0,
            V::Str(s) => !s.is_empty(),
            V::List(s) | V::Vector(s) | V::Set(s) | V::Heap(s) => !s.borrow().is_empty(),
            V::Dict(d) => !d.borrow().kv.is_empty(),
            V::Range(a, b, c) => range_len(*a, *b, *c) > 0,
            V::Enumerate(v) => v.truthy(),
            _ => true,
        }
    }
    pub fn is_int(&self) -> bool { matches!(self, V::Bool(_) | V::Int(_)) }
    pub fn as_int(&self) -> i64 { match self { V::Bool(b) => *b as i64, V::Int(i) => *i, _ => panic!("as_int") } }
    pub fn is_iterable(&self) -> bool {
        matches!(self, V::Str(_) | V::List(_) | V::Vector(_) | V::Set(_) | V::Dict(_) | V::Heap(_) | V::Range(..) | V::Enumerate(_))
    }
    pub fn ptr(&self) -> usize {
        match self {
            V::List(s) | V::Vector(s) | V::Set(s) | V::Heap(s) => Rc::as_ptr(s) as *const u8 as usize,
            V::Dict(d) => Rc::as_ptr(d) as *const u8 as usize,
            V::Struct(s) => Rc::as_ptr(s) as *const u8 as usize,
            _ => 0,
        }
    }
}

pub fn range_len(a: i64, b: i64, c: i64) -> u64 {
    let (a, b, c) = (a as i128, b as i128, c as i128);
    (if c > 0 && b > a { (b - a + c - 1) / c } else if c < 0 && b < a { (a - b - c - 1) / -c } else { 0 }) as u64
}

// ------------------------------------------------------------------------------------------------ equality and order

pub fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Nil, V::Nil) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Cx(x, i), V::Cx(y, j)) => x == y && i == j,
        (V::Rat(x), V::Rat(y)) => x == y,
        (V::Int(x), V::Rat(y)) | (V::Rat(y), V::Int(x)) => **y == Rat::int(*x),
        (V::Str(x), V::Str(y)) => x == y,
        (V::List(x), V::List(y)) | (V::Vector(x), V::Vector(y)) => Rc::ptr_eq(x, y) || seq_eq(&x.borrow(), &y.borrow()),
        (V::Set(x), V::Set(y)) => {
            if Rc::ptr_eq(x, y) { return true; }
            let (x, y) = (x.borrow(), y.borrow());
            x.len() == y.len() && x.iter().all(|v| y.iter().any(|w| eq(v, w)))
        }
        (V::Heap(x), V::Heap(y)) => {
            if Rc::ptr_eq(x, y) { return true; }
            // equal as multisets
            let (x, y) = (x.borrow(), y.borrow());
            let mut rest: Vec<&V> = y.iter().collect();
            x.len() == y.len() && x.iter().all(|v| match rest.iter().position(|w| eq(v, w)) { Some(i) => { rest.swap_remove(i); true } None => false })
        }
        (V::Dict(x), V::Dict(y)) => {
            if Rc::ptr_eq(x, y) { return true; }
            let (x, y) = (x.borrow(), y.borrow());
            x.kv.len() == y.kv.len() && x.kv.iter().all(|(k, v)| y.find(k).map_or(false, |i| eq(&y.kv[i].1, v)))
        }
        (V::Struct(x), V::Struct(y)) => Rc::ptr_eq(x, y) || (x.ty.id == y.ty.id && seq_eq(&x.values.borrow(), &y.values.borrow())),
        (V::Type(x), V::Type(y)) => x.id == y.id,
        (V::Native(x), V::Native(y)) => x == y,
        (V::PartialNative(x, p), V::PartialNative(y, q)) => x == y && seq_eq(p, q),
        (V::Func(x), V::Func(y)) => x.id == y.id,
        (V::Partial(x, p), V::Partial(y, q)) => x.id == y.id && seq_eq(p, q),
        (V::Memo(x), V::Memo(y)) => x.id == y.id,
        (V::GetField(x), V::GetField(y)) => x == y,
        (V::Range(a1, b1, c1), V::Range(a2, b2, c2)) => {
            let (n, m) = (range_len(*a1, *b1, *c1), range_len(*a2, *b2, *c2));
            (n == 0 && m == 0) || (a1 == a2 && b1 == b2 && c1 == c2)
        }
        (V::Enumerate(x), V::Enumerate(y)) => eq(x, y),
        (V::Slice(x), V::Slice(y)) => seq_eq(&x[..], &y[..]),
        _ => false,
    }
}

pub fn seq_eq(a: &[V], b: &[V]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y)) }

/// The order; values of unrelated types are not ordered (compare as `Equal`)
pub fn cmp(a: &V, b: &V) -> Ordering {
    fn rank(v: &V) -> i64 { match v { V::Nil => 0, V::Bool(_) => 1, _ => 2 } }
    fn int(v: &V) -> i64 { match v { V::Nil => 0, V::Bool(b) => *b as i64, V::Int(i) => *i, _ => unreachable!() } }
    use V::*;
    match (a, b) {
        (Nil | Bool(_) | Int(_), Nil | Bool(_) | Int(_)) => int(a).cmp(&int(b)).then(rank(a).cmp(&rank(b))),
        (Cx(r, i), Cx(s, j)) => i.cmp(j).then(r.cmp(s)),
        (Cx(_, i), Nil | Bool(_) | Int(_) | Rat(_)) => i.cmp(&0),
        (Nil | Bool(_) | Int(_) | Rat(_), Cx(_, i)) => 0.cmp(i),
        (Rat(x), Rat(y)) => x.cmp(y),
        (Rat(x), Nil | Bool(_) | Int(_)) => x.cmp(&super::num::Rat::int(int(b))).then(2.cmp(&rank(b))),
        (Nil | Bool(_) | Int(_), Rat(y)) => super::num::Rat::int(int(a)).cmp(y).then(rank(a).cmp(&2)),
        (Str(x), Str(y)) => x.as_bytes().cmp(y.as_bytes()),
        (List(x), List(y)) | (Vector(x), Vector(y)) => seq_cmp(&x.borrow(), &y.borrow()),
        (Struct(x), Struct(y)) => seq_cmp(&x.values.borrow(), &y.values.borrow()),
        _ => Ordering::Equal,
    }
}

pub fn seq_cmp(a: &[V], b: &[V]) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        match cmp(x, y) { Ordering::Equal => {} o => return o }
    }
    a.len().cmp(&b.len())
}

// ------------------------------------------------------------------------------------------------ text

pub fn to_str(v: &V) -> String {
    match v {
        V::Str(s) => s.to_string(),
        V::Func(f) | V::Partial(f, _) => f.name(),
        V::Native(n) | V::PartialNative(n, _) => nat_name(*n),
        _ => repr(v),
    }
}

pub fn nat_name(n: Nat) -> String {
    match n {
        Nat::Lib(s) => s.to_string(),
        Nat::Op(o, _) => format!("({})", o.text()),
        Nat::UnNot => "(!)".into(),
        Nat::UnLogicalNot => "(not)".into(),
    }
}

pub fn nat_repr(n: Nat) -> String {
    match n {
        Nat::Lib(s) => format!("fn {}({})", s, super::natives::args_of(s)),
        Nat::Op(BinOp::Sub, _) => "fn (-)(x)".into(),
        Nat::Op(o, _) => format!("fn ({})(lhs, rhs)", o.text()),
        Nat::UnNot => "fn (!)(x)".into(),
        Nat::UnLogicalNot => "fn (not)(x)".into(),
    }
}

pub fn func_repr(f: &FuncM) -> String {
    let ps: Vec<String> = f.def.params.iter().map(|p| p.show_name()).collect();
    format!("fn {}({})", f.name(), ps.join(", "))
}

pub fn quote(s: &str) -> String {
    // the same rules as the literal syntax: the quote, the backslash, and the three named escapes
    let mut r = String::from("'");
    for c in s.chars() {
        match c { '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), '\r' => r.push_str("\\r"), '\t' => r.push_str("\\t"), c => r.push(c) }
    }
    r.push('\'');
    r
}

pub fn show_cx(re: i64, im: i64) -> String {
    if re == 0 { format!("{}i", im) }
    else if im < 0 { format!("{} - {}i", re, (im as i128).unsigned_abs()) }
    else { format!("{} + {}i", re, im) }
}

thread_local! {
    /// Set when the model had to show something whose form is unspecified (the internal order of a heap)
    pub static UNSPECIFIED: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// Is the container at `p` part of the value `v`?
pub fn reaches(v: &V, p: usize) -> bool {
    fn go(v: &V, p: usize, seen: &mut Vec<usize>) -> bool {
        let q = v.ptr();
        if q == 0 { return false; }
        if q == p { return true; }
        if seen.contains(&q) { return false; }
        seen.push(q);
        match v {
            V::List(s) | V::Vector(s) | V::Set(s) | V::Heap(s) => s.borrow().iter().any(|x| go(x, p, seen)),
            V::Dict(d) => d.borrow().kv.iter().any(|(k, x)| go(k, p, seen) || go(x, p, seen)),
            V::Struct(s) => s.values.borrow().iter().any(|x| go(x, p, seen)),
            _ => false,
        }
    }
    go(v, p, &mut vec![])
}

pub fn repr(v: &V) -> String { repr_in(v, &mut Vec::new()) }

fn repr_in(v: &V, path: &mut Vec<usize>) -> String {
    let p = v.ptr();
    if p != 0 {
        if path.contains(&p) {
            return match v {
                V::List(_) | V::Heap(_) => "[...]".into(),
                V::Set(_) | V::Dict(_) => "{...}".into(),
                V::Vector(_) => "(...)".into(),
                V::Struct(s) => format!("{}(...)", s.ty.name),
                _ => unreachable!(),
            };
        }
        path.push(p);
    }
    let mut join = |s: &Vec<V>| s.iter().map(|x| repr_in(x, path)).collect::<Vec<_>>().join(", ");
    let r = match v {
        V::Nil => "nil".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Cx(a, b) => show_cx(*a, *b),
        V::Rat(r) => r.show(),
        V::Str(s) => quote(s),
        V::List(s) | V::Heap(s) => {
            if matches!(v, V::Heap(_)) && s.borrow().len() > 1 { UNSPECIFIED.with(|u| u.set(true)); }
            format!("[{}]", join(&s.borrow()))
        }
        V::Vector(s) => format!("({})", join(&s.borrow())),
        V::Set(s) => format!("{{{}}}", join(&s.borrow())),
        V::Dict(d) => format!("{{{}}}", d.borrow().kv.iter().map(|(k, v)| format!("{}: {}", repr_in(k, path), repr_in(v, path))).collect::<Vec<_>>().join(", ")),
        V::Struct(s) => format!("{}({})", s.ty.name, s.ty.fields.iter().zip(s.values.borrow().iter()).map(|(f, v)| format!("{}={}", f, repr_in(v, path))).collect::<Vec<_>>().join(", ")),
        V::Type(t) => if t.module { format!("module {}", t.name) } else { format!("struct {}({})", t.name, t.fields.join(", ")) },
        V::Range(a, b, c) => if range_len(*a, *b, *c) == 0 { "range(empty)".into() } else { format!("range({}, {}, {})", a, b, c) },
        V::Enumerate(x) => format!("enumerate({})", repr_in(x, path)),
        V::Slice(x) => {
            let f = |v: &V| if let V::Nil = v { String::new() } else { repr(v) };
            if let V::Nil = x[2] { format!("[{}:{}]", f(&x[0]), f(&x[1])) } else { format!("[{}:{}:{}]", f(&x[0]), f(&x[1]), f(&x[2])) }
        }
        V::Native(n) | V::PartialNative(n, _) => nat_repr(*n),
        V::Func(f) | V::Partial(f, _) => func_repr(f),
        V::Memo(m) => format!("@memoize {}", repr_in(&m.func, path)),
        V::GetField(_) => "(->)".into(),
    };
    if p != 0 { path.pop(); }
    r
}

#[allow(dead_code)]
pub fn big(x: i64) -> Big { Big::from(x as i128) }
