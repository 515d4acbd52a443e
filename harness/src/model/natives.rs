//! Reference standard library (from docs/library.md)
use std::rc::Rc;

use super::ast::{BinOp, UnOp};
use super::interp::{Er, Interp};
use super::num::*;
use super::ops::{self, binary, is_fn, msg, msgv, unary, R};
use super::value::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { A0, A0To1, Unique, Iter, A1, A1To2, A1To3, A2, A3, IterNE, UniqueNE, Invalid }

/// name, arity, parameter text as shown by `repr`
pub const TABLE: &[(&str, Kind, &str)] = {
    use Kind::*;
    &[
        ("read", A0, ""), ("read_line", A0, ""), ("argv", A0, ""), ("env", A0To1, "..."), ("print", Unique, "..."), ("vector", Unique, "..."),
        ("list", Iter, "..."), ("set", Iter, "..."), ("dict", Iter, "..."), ("heap", Iter, "..."),
        ("read_text", A1, "file"), ("bool", A1, "x"), ("str", A1, "x"), ("repr", A1, "x"), ("eval", A1, "expr"), ("typeof", A1, "x"), ("monitor", A1, "cmd"),
        ("to_lower", A1, "x"), ("to_upper", A1, "x"), ("trim", A1, "x"), ("char", A1, "x"), ("ord", A1, "x"), ("hex", A1, "x"), ("bin", A1, "x"), ("len", A1, "x"),
        ("enumerate", A1, "iter"), ("concat", A1, "iter"), ("memoize", A1, "f"), ("counter", A1, "it"), ("copy", A1, "it"),
        ("peek", A1, "collection"), ("pop", A1, "collection"), ("pop_front", A1, "collection"), ("clear", A1, "collection"), ("keys", A1, "dictionary"), ("values", A1, "dictionary"),
        ("abs", A1, "x"), ("sqrt", A1, "x"), ("count_ones", A1, "x"), ("count_zeros", A1, "x"), ("real", A1, "x"), ("imag", A1, "x"), ("numer", A1, "x"), ("denom", A1, "x"),
        ("int", A1To2, "x, default?"), ("rational", A1To2, "x"), ("range", A1To3, "start, stop, step"),
        ("write_text", A2, "file, text"), ("search", A2, "pattern, x"), ("split", A2, "pattern, x"), ("join", A2, "joiner, iter"),
        ("min_by", A2, "key_or_cmp, iter"), ("max_by", A2, "key_or_cmp, iter"), ("map", A2, "f, iter"), ("filter", A2, "f, iter"), ("flat_map", A2, "f, iter"),
        ("reduce", A2, "f, iter"), ("sort_by", A2, "f, iter"), ("group_by", A2, "f, iter"), ("permutations", A2, "n, iter"), ("combinations", A2, "n, iter"),
        ("any", A2, "f, it"), ("all", A2, "f, it"), ("union", A2, "other, this"), ("intersect", A2, "other, this"), ("difference", A2, "other, this"),
        ("push", A2, "value, collection"), ("push_front", A2, "value, collection"), ("remove", A2, "param, collection"),
        ("find", A2, "predicate, collection"), ("rfind", A2, "predicate, collection"), ("index_of", A2, "value_or_predicate, collection"), ("rindex_of", A2, "value_or_predicate, collection"),
        ("default", A2, "value, dictionary"), ("replace", A3, "pattern, replacer, x"), ("insert", A3, "index, value, collection"),
        ("sum", IterNE, "..."), ("zip", IterNE, "..."), ("sort", IterNE, "..."), ("reverse", IterNE, "..."), ("gcd", IterNE, "..."), ("lcm", IterNE, "..."),
        ("min", UniqueNE, "..."), ("max", UniqueNE, "..."), ("complex", Invalid, ""), ("function", Invalid, ""), ("iterable", Invalid, ""),
    ]
};

pub fn find(name: &str) -> Option<Nat> { TABLE.iter().find(|t| t.0 == name).map(|t| Nat::Lib(t.0)) }
pub fn args_of(name: &str) -> &'static str { TABLE.iter().find(|t| t.0 == name).map_or("", |t| t.2) }

pub fn kind(n: Nat) -> Kind {
    match n {
        Nat::Lib(s) => TABLE.iter().find(|t| t.0 == s).unwrap().1,
        Nat::Op(BinOp::Sub, false) => Kind::A1To2,
        Nat::Op(..) => Kind::A2,
        Nat::UnNot | Nat::UnLogicalNot => Kind::A1,
    }
}

fn bad_args(n: Nat, total: usize) -> R { msg(format!("Incorrect number of arguments for {}, got {}", nat_repr(n), total)) }
pub fn not_fn(v: &V) -> R { if let V::Func(_) = v { unreachable!() } msg(format!("Tried to evaluate {} but it is not a function.", repr(v))) }

/// Call `n` with `bound` partial arguments followed by `args`
pub fn call(it: &mut Interp, n: Nat, bound: &[V], args: Vec<V>) -> R {
    let total = bound.len() + args.len();
    if args.is_empty() && !bound.is_empty() { return Ok(V::PartialNative(n, Rc::new(bound.to_vec()))); }
    let mut all = bound.to_vec();
    all.extend(args);
    let me = V::Native(n);
    use Kind::*;
    let (lo, hi) = match kind(n) {
        Invalid => return not_fn(&me),
        A0 => (0, 0), A0To1 => (0, 1), A1 => (1, 1), A1To2 => (1, 2), A1To3 => (1, 3), A2 => (2, 2), A3 => (3, 3),
        Unique => return apply(it, n, all),
        Iter => { if total == 1 { all = iter(&all[0])?; } return apply(it, n, all); }
        IterNE => { if total == 0 { return bad_args(n, 0); } if total == 1 { all = iter(&all[0])?; } return apply(it, n, all); }
        UniqueNE => { if total == 0 { return bad_args(n, 0); } return apply(it, n, all); }
    };
    if total > hi { return bad_args(n, total); }
    if total < lo {
        return Ok(if total == 0 { me } else { V::PartialNative(n, Rc::new(all)) });
    }
    apply(it, n, all)
}

/// Number of arguments a function needs before it runs
pub fn min_nargs(f: &V) -> Option<usize> {
    fn k(n: Nat) -> usize { match kind(n) { Kind::A0 | Kind::A0To1 | Kind::Unique | Kind::Iter => 0, Kind::A2 => 2, Kind::A3 => 3, Kind::Invalid => 0, _ => 1 } }
    Some(match f {
        V::Native(n) => k(*n),
        V::PartialNative(n, a) => k(*n) - a.len(),
        V::Func(f) => f.min_args(),
        V::Partial(f, a) => f.min_args() - a.len(),
        V::Type(t) if !t.module => t.fields.len(),
        V::GetField(_) => 1,
        V::List(_) | V::Slice(_) => 1,
        V::Memo(m) => min_nargs(&m.func)?,
        _ => return None,
    })
}

// ------------------------------------------------------------------------------------------------ helpers

pub fn iter(v: &V) -> Result<Vec<V>, Er> {
    Ok(match v {
        V::Str(s) => s.chars().map(|c| string(c.to_string())).collect(),
        V::List(s) | V::Vector(s) | V::Set(s) => s.borrow().clone(),
        V::Heap(s) => if s.borrow().len() <= 1 { s.borrow().clone() } else { return Err(Er::Skip) },
        V::Dict(d) => d.borrow().kv.iter().map(|(k, v)| vector(vec![k.clone(), v.clone()])).collect(),
        V::Range(a, b, c) => {
            let n = range_len(*a, *b, *c);
            if n > 100_000 { return Err(Er::Skip); }
            (0..n as i128).map(|i| V::Int((*a as i128 + i * *c as i128) as i64)).collect()
        }
        V::Enumerate(x) => iter(x)?.into_iter().enumerate().map(|(i, x)| vector(vec![V::Int(i as i64), x])).collect(),
        _ => return msgv(&[v], |e| format!("TypeError: Expected {} to be an iterable", e[0])),
    })
}

/// Iteration in progress: lists, vectors, sets and dictionaries are read as they are when each element is reached
pub struct It { v: V, i: usize, rest: Option<std::vec::IntoIter<V>> }

impl It {
    pub fn new(v: &V) -> Result<It, Er> {
        Ok(match v {
            V::List(_) | V::Vector(_) | V::Set(_) | V::Dict(_) => It { v: v.clone(), i: 0, rest: None },
            _ => It { v: V::Nil, i: 0, rest: Some(iter(v)?.into_iter()) },
        })
    }
    pub fn next(&mut self) -> Option<V> {
        self.i += 1;
        match (&self.v, &mut self.rest) {
            (_, Some(r)) => r.next(),
            (V::List(s) | V::Vector(s) | V::Set(s), _) => s.borrow().get(self.i - 1).cloned(),
            (V::Dict(d), _) => d.borrow().kv.get(self.i - 1).map(|(k, v)| vector(vec![k.clone(), v.clone()])),
            _ => None,
        }
    }
}

pub fn recursive<T>() -> Result<T, Er> { msg("ValueError: Cannot create recursive hash-based collection") }

pub fn put_new(d: &Rc<std::cell::RefCell<DictM>>, k: &V, v: V) -> Result<(), Er> {
    if reaches(k, Rc::as_ptr(d) as *const u8 as usize) { return recursive(); }
    let mut d = d.borrow_mut();
    if d.find(k).is_none() { d.kv.push((k.clone(), v)); }
    Ok(())
}

fn live(v: &V, f: &V, n: usize) -> Result<It, Er> {
    match (It::new(v), callable(f, n)) {
        (Err(_), Err(_)) => Err(Er::Any),
        (Err(e), _) => Err(e),
        (_, Err(e)) => Err(e),
        (Ok(v), Ok(())) => Ok(v),
    }
}

/// Elements in an unspecified order
fn iter_any(v: &V) -> Result<Vec<V>, Er> { if let V::Heap(s) = v { Ok(s.borrow().clone()) } else { iter(v) } }

fn expect<T>(v: &V, what: &str) -> Result<T, Er> { msgv(&[v], |e| format!("TypeError: Expected {} to be {} {}", e[0], if what.starts_with('i') && what.starts_with("iter") { "an" } else { "a" }, what)) }
fn need_int(v: &V) -> Result<i64, Er> { if v.is_int() { Ok(v.as_int()) } else { expect(v, "int") } }
fn need_str(v: &V) -> Result<Rc<str>, Er> { if let V::Str(s) = v { Ok(s.clone()) } else { expect(v, "string") } }
fn nonempty<T>(name: &str, v: Vec<T>) -> Result<Vec<T>, Er> { if v.is_empty() { msg(format!("ValueError: Expected '{}' argument to be a non-empty iterable", name)) } else { Ok(v) } }

/// Library functions that call back need a callable with one (or two) arguments
fn callable(f: &V, n: usize) -> Result<(), Er> {
    match f {
        V::Func(_) | V::Partial(..) | V::Memo(_) | V::List(_) | V::Slice(_) | V::GetField(_) => Ok(()),
        V::Type(t) => if t.module { Err(Er::Any) } else { Ok(()) },
        V::Native(m) | V::PartialNative(m, _) => {
            let b = if let V::PartialNative(_, a) = f { a.len() } else { 0 };
            let hi = match kind(*m) { Kind::Invalid => return Err(Er::Any), Kind::A0 => 0, Kind::A0To1 | Kind::A1 => 1, Kind::A1To2 | Kind::A2 => 2, Kind::A1To3 | Kind::A3 => 3, _ => 9 };
            if n + b > hi { bad_args(*m, n + b).map(|_| ()) } else { Ok(()) }
        }
        _ => not_fn(f).map(|_| ()),
    }
}

pub fn index_of_seq(i: i64, n: usize) -> Option<usize> {
    let k = if i < 0 { i as i128 + n as i128 } else { i as i128 };
    if k >= 0 && k < n as i128 { Some(k as usize) } else { None }
}

/// Python slice indices: positions selected by `[a:b:c]` on a sequence of length n
pub fn slice_positions(n: usize, a: Option<i64>, b: Option<i64>, c: Option<i64>) -> Option<Vec<usize>> {
    let n = n as i128;
    let step = c.unwrap_or(1) as i128;
    if step == 0 { return None; }
    let (lo, hi) = if step > 0 { (0, n) } else { (-1, n - 1) };
    let fix = |v: i64| -> i128 { let v = v as i128; let v = if v < 0 { v + n } else { v }; v.clamp(lo, hi) };
    let start = a.map_or(if step > 0 { lo } else { hi }, fix);
    let stop = b.map_or(if step > 0 { hi } else { lo }, fix);
    let mut r = Vec::new();
    let mut i = start;
    while (step > 0 && i < stop) || (step < 0 && i > stop) { r.push(i as usize); i += step; }
    Some(r)
}

pub fn get_index(a: &V, i: &V) -> R {
    match a {
        V::Dict(d) => {
            let d = d.borrow();
            return match d.find(i) {
                Some(k) => Ok(d.kv[k].1.clone()),
                None => match &d.default {
                    Some(x) => Ok(x.clone()),
                    None => msgv(&[i], |e| format!("ValueError: Key {} not found in dictionary", e[0])),
                }
            };
        }
        V::Str(s) => {
            let cs: Vec<char> = s.chars().collect();
            let k = need_int(i)?;
            return match index_of_seq(k, cs.len()) { Some(k) => Ok(string(cs[k].to_string())), None => out_of_bounds(k, cs.len()) };
        }
        V::List(s) | V::Vector(s) => {
            let k = need_int(i)?;
            let s = s.borrow();
            return match index_of_seq(k, s.len()) { Some(k) => Ok(s[k].clone()), None => out_of_bounds(k, s.len()) };
        }
        _ => msgv(&[a], |e| format!("TypeError: Cannot index {}", e[0])),
    }
}

pub fn out_of_bounds<T>(i: i64, n: usize) -> Result<T, Er> { msg(format!("Index '{}' is out of bounds for list of length [0, {})", i, n)) }

pub fn set_index(a: &V, i: &V, v: V) -> Result<(), Er> {
    match a {
        V::Dict(d) => { if reaches(i, a.ptr()) { return recursive(); } d.borrow_mut().put(i.clone(), v); Ok(()) }
        V::List(s) | V::Vector(s) => {
            let k = need_int(i)?;
            let n = s.borrow().len();
            match index_of_seq(k, n) { Some(k) => { s.borrow_mut()[k] = v; Ok(()) } None => out_of_bounds(k, n) }
        }
        _ => Err(Er::Any),
    }
}

pub fn get_slice(a: &V, p: &[V; 3]) -> R {
    let kind = match a { V::Str(_) | V::List(_) | V::Vector(_) => a, _ => return msgv(&[a], |e| format!("TypeError: Cannot slice {}", e[0])) };
    let f = |v: &V| -> Result<Option<i64>, Er> { match v { V::Nil => Ok(None), v => need_int(v).map(Some) } };
    // the step is examined first
    let c = f(&p[2])?;
    if c == Some(0) { return msg("ValueError: 'step' argument cannot be zero"); }
    let (x, y) = (f(&p[0])?, f(&p[1])?);
    let items = iter(kind)?;
    let pos = slice_positions(items.len(), x, y, c).unwrap();
    let v: Vec<V> = pos.into_iter().map(|i| items[i].clone()).collect();
    Ok(match a { V::Str(_) => string(v.iter().map(to_str).collect::<String>()), V::List(_) => list(v), _ => vector(v) })
}

/// Deep copy that preserves sharing and cycles
pub fn copy(v: &V) -> R {
    fn go(v: &V, memo: &mut Vec<(usize, V)>) -> R {
        let p = v.ptr();
        if p == 0 {
            return Ok(match v { V::Enumerate(x) => V::Enumerate(Rc::new(go(x, memo)?)), _ => v.clone() });
        }
        if let Some((_, c)) = memo.iter().find(|(q, _)| *q == p) { return Ok(c.clone()); }
        match v {
            V::List(s) | V::Vector(s) | V::Set(s) | V::Heap(s) => {
                let n = seq(vec![]);
                let c = match v { V::List(_) => V::List(n.clone()), V::Vector(_) => V::Vector(n.clone()), V::Set(_) => V::Set(n.clone()), _ => V::Heap(n.clone()) };
                memo.push((p, c.clone()));
                let items = s.borrow().clone();
                for x in &items { let x = go(x, memo)?; n.borrow_mut().push(x); }
                Ok(c)
            }
            V::Dict(d) => {
                let n = Rc::new(std::cell::RefCell::new(DictM::default()));
                memo.push((p, V::Dict(n.clone())));
                let (kv, def) = { let d = d.borrow(); (d.kv.clone(), d.default.clone()) };
                for (k, x) in &kv { let (k, x) = (go(k, memo)?, go(x, memo)?); n.borrow_mut().kv.push((k, x)); }
                if let Some(x) = def { let x = go(&x, memo)?; n.borrow_mut().default = Some(x); }
                Ok(V::Dict(n))
            }
            V::Struct(s) => {
                let n = Rc::new(StructM { ty: s.ty.clone(), values: Default::default() });
                memo.push((p, V::Struct(n.clone())));
                let items = s.values.borrow().clone();
                for x in &items { let x = go(x, memo)?; n.values.borrow_mut().push(x); }
                Ok(V::Struct(n))
            }
            _ => Ok(v.clone()),
        }
    }
    go(v, &mut Vec::new())
}

/// `'...' % args`
pub fn format(f: &str, b: &V) -> R {
    let args: Vec<V> = match b { V::List(_) | V::Vector(_) => iter(b)?, v => vec![v.clone()] };
    let mut args = args.into_iter();
    let c: Vec<char> = f.chars().collect();
    let mut i = 0;
    let mut out = String::new();
    while i < c.len() {
        if c[i] != '%' { out.push(c[i]); i += 1; continue; }
        i += 1;
        if c.get(i) == Some(&'%') { out.push('%'); i += 1; continue; }
        let zero = c.get(i) == Some(&'0');
        if zero { i += 1; }
        if zero && c.get(i) == Some(&'0') { return msg("ValueError: Invalid format character '0' in format string"); }
        let mut w = String::new();
        while let Some(d) = c.get(i).filter(|d| d.is_ascii_digit()) { w.push(*d); i += 1; }
        let w: usize = if w.is_empty() { 0 } else { match w.parse::<usize>() { Ok(w) if w < 10_000 => w, _ => return Err(Er::Skip) } };
        let k = match c.get(i) {
            None => return msg("ValueError: Expected format character after '%', got end of string"),
            Some(k @ ('d' | 'x' | 'b' | 's')) => *k,
            Some(k) => return msg(format!("ValueError: Invalid format character '{}' in format string", k)),
        };
        i += 1;
        let a = match args.next() { Some(a) => a, None => return msg("ValueError: Not enough arguments for format string") };
        if k == 's' {
            let s = to_str(&a);
            let n = s.chars().count();
            out.push_str(&s);
            for _ in n..w { out.push(' '); }
        } else {
            let v = need_int(&a)?;
            // hexadecimal and binary show the 64-bit two's complement pattern
            let digits = match k { 'd' => v.unsigned_abs().to_string(), 'x' => format!("{:x}", v), _ => format!("{:b}", v) };
            let sign = if v < 0 && k == 'd' { "-" } else { "" };
            let pad = w.saturating_sub(digits.len() + sign.len());
            if zero { out.push_str(sign); out.push_str(&"0".repeat(pad)); } else { out.push_str(&" ".repeat(pad)); out.push_str(sign); }
            out.push_str(&digits);
        }
    }
    if let Some(x) = args.next() { return msgv(&[&x], |e| format!("ValueError: Not all arguments consumed in format string, next: {}", e[0])); }
    Ok(string(out))
}

/// Stable sort; `le(a, b)` false means b goes before a
pub fn sort_values(v: Vec<V>, mut less: impl FnMut(&V, &V) -> Result<bool, Er>) -> Result<Vec<V>, Er> {
    let mut r: Vec<V> = Vec::new();
    for x in v {
        let mut k = r.len();
        while k > 0 && less(&x, &r[k - 1])? { k -= 1; }
        r.insert(k, x);
    }
    Ok(r)
}

pub fn type_of(v: &V) -> V {
    let l = |n: &'static str| V::Native(Nat::Lib(n));
    match v {
        V::Nil => V::Nil, V::Bool(_) => l("bool"), V::Int(_) => l("int"), V::Cx(..) => l("complex"), V::Rat(_) => l("rational"), V::Str(_) => l("str"),
        V::List(_) => l("list"), V::Vector(_) => l("vector"), V::Set(_) => l("set"), V::Dict(_) => l("dict"), V::Heap(_) => l("heap"),
        V::Range(..) => l("range"), V::Enumerate(_) => l("enumerate"),
        V::Struct(s) => V::Type(s.ty.clone()),
        _ => l("function"),
    }
}

fn perms(v: &[V], n: usize, used: &mut Vec<bool>, cur: &mut Vec<V>, out: &mut Vec<V>) {
    if cur.len() == n { out.push(vector(cur.clone())); return; }
    for i in 0..v.len() {
        if used[i] { continue; }
        used[i] = true; cur.push(v[i].clone());
        perms(v, n, used, cur, out);
        cur.pop(); used[i] = false;
    }
}
fn combs(v: &[V], n: usize, from: usize, cur: &mut Vec<V>, out: &mut Vec<V>) {
    if cur.len() == n { out.push(vector(cur.clone())); return; }
    for i in from..v.len() { cur.push(v[i].clone()); combs(v, n, i + 1, cur, out); cur.pop(); }
}

fn gcd(a: i64, b: i64) -> i64 { let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs()); while b != 0 { let r = a % b; a = b; b = r; } wrap63(a as i128) }
fn lcm(a: i64, b: i64) -> Result<i64, Er> {
    if a == 0 || b == 0 { return Ok(0); }
    let r = ((a as i128 / gcd(a, b) as i128) * b as i128).abs();
    // a multiple that does not fit in an integer: nothing is documented
    if r >= 1 << 62 { Err(Er::Skip) } else { Ok(r as i64) }
}

fn parse_int(s: &str, radix: u32) -> Option<i64> {
    let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s.strip_prefix('+').unwrap_or(s)) };
    if t.is_empty() || !t.chars().all(|c| c.is_digit(radix)) { return None; }
    let mut r: i128 = 0;
    for c in t.chars() { r = r * radix as i128 + c.to_digit(radix).unwrap() as i128; if r > 1 << 70 { return None; } }
    if neg { r = -r; }
    if r < MIN_INT as i128 || r > MAX_INT as i128 { None } else { Some(r as i64) }
}

// ------------------------------------------------------------------------------------------------ the functions

fn apply(it: &mut Interp, n: Nat, a: Vec<V>) -> R {
    let name = match n {
        Nat::Op(BinOp::Sub, _) if a.len() == 1 => return unary(UnOp::Neg, &a[0]),
        Nat::Op(o, false) => return binary(o, &a[0], &a[1]),
        Nat::Op(o, true) => return binary(o, &a[1], &a[0]),
        Nat::UnNot => return unary(UnOp::Not, &a[0]),
        Nat::UnLogicalNot => return unary(UnOp::LNot, &a[0]),
        Nat::Lib(s) => s,
    };
    match name {
        "print" => { let s: Vec<String> = a.iter().map(to_str).collect(); it.out.push_str(&s.join(" ")); it.out.push('\n'); Ok(V::Nil) }
        "read" => { let s = it.stdin.replace("\r\n", "\n"); it.stdin.clear(); Ok(string(s)) }
        "read_line" => {
            let s = std::mem::take(&mut it.stdin);
            let (l, r) = match s.find('\n') { Some(i) => (s[..i].to_string(), s[i + 1..].to_string()), None => (s, String::new()) };
            it.stdin = r;
            Ok(string(l.strip_suffix('\r').unwrap_or(&l)))
        }
        "argv" => Ok(list(vec![])),
        "bool" => Ok(V::Bool(a[0].truthy())),
        "str" => Ok(string(to_str(&a[0]))),
        "repr" => Ok(string(repr(&a[0]))),
        "typeof" => Ok(type_of(&a[0])),
        "eval" => { let s = need_str(&a[0])?; it.eval_text(&s) }
        "int" => match &a[0] {
            V::Nil => Ok(V::Int(0)),
            V::Bool(_) | V::Int(_) => Ok(V::Int(a[0].as_int())),
            V::Str(s) => match parse_int(s, 10) {
                Some(i) => Ok(V::Int(i)),
                None => match a.get(1) {
                    Some(d) => Ok(d.clone()),
                    None => Err(Er::Prefix(format!("ValueError: Cannot convert {} to an integer: ", a[0].err().unwrap()))),
                }
            },
            V::Rat(r) => {
                if !r.is_int() { return Err(Er::Any); }
                match r.n.to_i128() { Some(i) if i >= MIN_INT as i128 && i <= MAX_INT as i128 => Ok(V::Int(i as i64)), _ => Err(Er::Any) }
            }
            v => msgv(&[v], |e| format!("TypeError: Cannot convert {} to an int", e[0])),
        },
        "rational" => {
            if let (V::Str(s), 1) = (&a[0], a.len()) {
                // whether white space, underscores and a sign of the denominator are accepted is open
                if s.contains(|c: char| c.is_whitespace() || c == '_') || s.contains("/-") || s.contains("/+") || s.starts_with('+') { return Err(Er::Skip); }
                let (p, q) = match s.split_once('/') { Some((p, q)) => (p, Some(q)), None => (&**s, None) };
                return match (Big::parse(p), q.map(Big::parse)) {
                    (Some(p), None) => Ok(rat(Rat::new(p, Big::from(1)))),
                    (Some(p), Some(Some(q))) if !q.is_zero() => Ok(rat(Rat::new(p, q))),
                    _ => Err(Er::Any),
                };
            }
            let f = |v: &V| -> Result<Rat, Er> { match v { V::Bool(_) | V::Int(_) | V::Rat(_) => Ok(ops::rparts(v)), v => msgv(&[v], |e| format!("TypeError: Cannot convert {} to an rational", e[0])) } };
            if let V::Str(_) = a[0] { return Err(Er::Skip); }
            let p = f(&a[0])?;
            match a.get(1) {
                None => Ok(rat(p)),
                Some(q) => { let q = f(q)?; if q.is_zero() { msg("ValueError: Division by zero") } else { Ok(rat(p.div(&q))) } }
            }
        }
        "vector" => {
            if a.len() == 1 {
                return match &a[0] {
                    V::Bool(_) | V::Int(_) => Ok(vector(vec![V::Int(a[0].as_int()), V::Int(0)])),
                    V::Cx(r, i) => Ok(vector(vec![V::Int(wrap63(*r as i128)), V::Int(wrap63(*i as i128))])),
                    v => Ok(vector(iter(v)?)),
                };
            }
            Ok(vector(a))
        }
        "list" => Ok(list(a)),
        "set" => Ok(set(a)),
        "dict" => {
            let mut d = DictM::default();
            for x in &a {
                // a key-value pair: a two element sequence
                match x {
                    V::Vector(s) if s.borrow().len() == 2 => { let s = s.borrow(); d.put(s[0].clone(), s[1].clone()); }
                    V::Vector(_) => return msgv(&[x], |e| format!("ValueError: Cannot collect key-value pair {} into a dict", e[0])),
                    V::List(_) | V::Str(_) | V::Set(_) => return Err(Er::Skip),
                    _ => return msgv(&[x], |e| format!("ValueError: Cannot collect key-value pair {} into a dict", e[0])),
                }
            }
            Ok(V::Dict(Rc::new(std::cell::RefCell::new(d))))
        }
        "heap" => Ok(V::Heap(seq(a))),
        "to_lower" => Ok(string(need_str(&a[0])?.to_lowercase())),
        "to_upper" => Ok(string(need_str(&a[0])?.to_uppercase())),
        "trim" => Ok(string(need_str(&a[0])?.trim())),
        "char" => {
            let i = need_int(&a[0])?;
            match (if i > 0 && i <= 0x10ffff { char::from_u32(i as u32) } else { None }) { Some(c) => Ok(string(c.to_string())), None => msg(format!("ValueError: Cannot convert int {} to a character", i)) }
        }
        "ord" => {
            let s = need_str(&a[0])?;
            let mut c = s.chars();
            match (c.next(), c.next()) { (Some(c), None) => Ok(V::Int(c as i64)), _ => expect(&a[0], "single character string") }
        }
        "hex" | "bin" => {
            let radix = if name == "hex" { 16 } else { 2 };
            match &a[0] {
                V::Int(i) => { Ok(string(if radix == 16 { format!("{:x}", i) } else { format!("{:b}", i) })) }
                V::Bool(_) => Err(Er::Skip),
                V::Str(s) => match parse_int(s, radix) { Some(i) => Ok(V::Int(i)), None => msgv(&[&a[0]], |e| format!("TypeError: Cannot convert {} to an int", e[0])) },
                v => expect(v, "int or string"),
            }
        }
        "len" => Ok(V::Int(match &a[0] {
            V::Str(s) => s.chars().count() as i64,
            V::Dict(d) => d.borrow().kv.len() as i64,
            V::List(s) | V::Vector(s) | V::Set(s) | V::Heap(s) => s.borrow().len() as i64,
            V::Range(x, y, z) => wrap63(range_len(*x, *y, *z) as i128),
            V::Enumerate(x) => return apply(it, n, vec![(**x).clone()]),
            v => return msgv(&[v], |e| format!("TypeError: Expected {} to be an iterable", e[0])),
        })),
        "range" => {
            let (s, e, st) = match a.len() { 1 => (0, need_int(&a[0])?, 1), 2 => (need_int(&a[0])?, need_int(&a[1])?, 1), _ => (need_int(&a[0])?, need_int(&a[1])?, need_int(&a[2])?) };
            if st == 0 { return msg("ValueError: 'step' argument cannot be zero"); }
            Ok(V::Range(s, e, st))
        }
        "enumerate" => Ok(V::Enumerate(Rc::new(a[0].clone()))),
        "sum" => { let mut r = 0; for x in &a { r = wrap63(r as i128 + need_int(x)? as i128); } Ok(V::Int(r)) }
        "min" | "max" => {
            let v = if a.len() == 1 {
                if let V::Native(Nat::Lib("int")) = a[0] { return Ok(V::Int(if name == "min" { MIN_INT } else { MAX_INT })); }
                iter_any(&a[0])?
            } else { a };
            let mut v = nonempty(name, v)?.into_iter();
            let mut r = v.next().unwrap();
            for x in v { let o = ops::order(&x, &r)?; if if name == "min" { o.is_lt() } else { o.is_ge() } { r = x; } }
            Ok(r)
        }
        "min_by" | "max_by" => {
            let f = &a[0];
            if !is_fn(f) { return if !matches!(iter(&a[1]), Ok(v) if !v.is_empty()) { Err(Er::Any) } else { expect_fn(f) }; }
            let k = min_nargs(f).ok_or(Er::Skip)?;
            if !matches!(iter(&a[1]), Ok(v) if !v.is_empty()) && (k != 1 && k != 2 || callable(f, k).is_err()) { return Err(Er::Any); }
            let v = iter(&a[1])?;
            let v = nonempty(name, v)?;
            let mut r = v[0].clone();
            if k != 1 && k != 2 { return expect_key(f); }
            if k == 2 {
                callable(f, 2)?;
                for x in &v[1..] { let c = need_int(&it.call(f, vec![r.clone(), x.clone()])?)?; if if name == "min_by" { c > 0 } else { c <= 0 } { r = x.clone(); } }
            } else {
                callable(f, 1)?;
                let mut rk = it.call(f, vec![r.clone()])?;
                for x in &v[1..] { let xk = it.call(f, vec![x.clone()])?; let o = ops::order(&xk, &rk)?; if if name == "min_by" { o.is_lt() } else { o.is_ge() } { r = x.clone(); rk = xk; } }
            }
            Ok(r)
        }
        "map" => { let mut v = live(&a[1], &a[0], 1)?; let mut r = Vec::new(); while let Some(x) = v.next() { r.push(it.call(&a[0], vec![x])?); } Ok(list(r)) }
        "filter" => { let mut v = live(&a[1], &a[0], 1)?; let mut r = Vec::new(); while let Some(x) = v.next() { if it.call(&a[0], vec![x.clone()])?.truthy() { r.push(x); } } Ok(list(r)) }
        "flat_map" => { let mut v = live(&a[1], &a[0], 1)?; let mut r = Vec::new(); while let Some(x) = v.next() { let y = it.call(&a[0], vec![x])?; r.extend(iter(&y)?); } Ok(list(r)) }
        "concat" => { let mut r = Vec::new(); for x in iter(&a[0])? { r.extend(iter(&x)?); } Ok(list(r)) }
        "zip" => {
            let v = nonempty(name, a)?;
            let mut cols = Vec::new();
            for x in &v { cols.push(iter(x)?); }
            let n = cols.iter().map(|c| c.len()).min().unwrap();
            Ok(list((0..n).map(|i| vector(cols.iter().map(|c| c[i].clone()).collect())).collect()))
        }
        "reduce" => {
            let v = iter2(&a[1], &a[0], 2);
            if v.is_err() && matches!(iter(&a[1]), Ok(w) if w.is_empty()) { return Err(Er::Any); }
            let mut v = nonempty(name, v?)?.into_iter();
            let mut r = v.next().unwrap();
            for x in v { r = it.call(&a[0], vec![r, x])?; }
            Ok(r)
        }
        "sort" => {
            // the position of elements which tie, but are not equal, is open
            for (i, x) in a.iter().enumerate() { for y in &a[i + 1..] { if ops::order(x, y)?.is_eq() && !eq(x, y) { return Err(Er::Skip); } } }
            Ok(list(sort_values(a, |x, y| Ok(ops::order(x, y)?.is_lt()))?))
        }
        "reverse" => Ok(list(a.into_iter().rev().collect())),
        "sort_by" => {
            let f = a[0].clone();
            if !is_fn(&f) { return if iter(&a[1]).is_err() { Err(Er::Any) } else { expect_fn(&f) }; }
            let k = min_nargs(&f).ok_or(Er::Skip)?;
            if k != 1 && k != 2 { return if iter(&a[1]).is_err() { Err(Er::Any) } else { expect_key(&f) }; }
            let v = iter2(&a[1], &f, k)?;
            // which elements are passed to the function when there is nothing to sort, and in which order they are passed to it, is open
            let single = v.len() < 2;
            let open = |e: Er| if e == Er::Skip || e == Er::Exit { e } else if single { Er::Skip } else { Er::Any };
            if k == 2 {
                Ok(list(sort_values(v, |x, y| Ok(need_int(&it.call(&f, vec![x.clone(), y.clone()])?)? < 0)).map_err(open)?))
            } else {
                let mut keyed = Vec::new();
                for x in v { let k = it.call(&f, vec![x.clone()]).map_err(open)?; keyed.push(vector(vec![k, x])); }
                let get = |p: &V, i: usize| if let V::Vector(s) = p { s.borrow()[i].clone() } else { unreachable!() };
                for (i, x) in keyed.iter().enumerate() { for y in &keyed[i + 1..] { if ops::order(&get(x, 0), &get(y, 0))?.is_eq() && !eq(&get(x, 1), &get(y, 1)) { return Err(Er::Skip); } } }
                let r = sort_values(keyed, |x, y| Ok(ops::order(&get(x, 0), &get(y, 0))?.is_lt()))?;
                Ok(list(r.iter().map(|p| get(p, 1)).collect()))
            }
        }
        "group_by" => match &a[0] {
            V::Bool(_) | V::Int(_) => {
                let k = a[0].as_int();
                if k <= 0 && iter(&a[1]).is_err() { return Err(Er::Any); }
                if k <= 0 { return msg(format!("ValueError: Expected value '{}: int' to be positive", k)); }
                let v = iter(&a[1])?;
                Ok(list(v.chunks(k as usize).map(|c| vector(c.to_vec())).collect()))
            }
            f => {
                let v = iter2(&a[1], f, 1)?;
                let mut d: Vec<(V, V)> = Vec::new();
                for x in v {
                    let k = it.call(f, vec![x.clone()])?;
                    match d.iter().find(|(q, _)| eq(q, &k)) { Some((_, V::Vector(s))) => s.borrow_mut().push(x), _ => d.push((k, vector(vec![x]))) }
                }
                Ok(dict(d))
            }
        },
        "permutations" | "combinations" => {
            let k = need_int(&a[0])?;
            if k < 0 { return Err(Er::Any); }
            let v = iter(&a[1])?;
            if k as usize > v.len() { return Ok(list(vec![])); }
            let mut out = Vec::new();
            if name == "permutations" { perms(&v, k as usize, &mut vec![false; v.len()], &mut vec![], &mut out) } else { combs(&v, k as usize, 0, &mut vec![], &mut out) }
            Ok(list(out))
        }
        "any" => { let mut v = live(&a[1], &a[0], 1)?; while let Some(x) = v.next() { if it.call(&a[0], vec![x])?.truthy() { return Ok(V::Bool(true)); } } Ok(V::Bool(false)) }
        "all" => { let mut v = live(&a[1], &a[0], 1)?; while let Some(x) = v.next() { if !it.call(&a[0], vec![x])?.truthy() { return Ok(V::Bool(false)); } } Ok(V::Bool(true)) }
        "memoize" => { if !is_fn(&a[0]) { return expect_fn(&a[0]); } let id = it.next_id(); Ok(V::Memo(Rc::new(MemoM { func: a[0].clone(), cache: Default::default(), id }))) }
        "counter" => {
            let mut d = DictM::default();
            for x in iter(&a[0])? { let c = match d.find(&x) { Some(i) => d.kv[i].1.as_int(), None => 0 }; d.put(x, V::Int(c + 1)); }
            Ok(V::Dict(Rc::new(std::cell::RefCell::new(d))))
        }
        "copy" => copy(&a[0]),
        "find" | "rfind" | "index_of" | "rindex_of" => {
            let mut v: Vec<(usize, V)> = iter(&a[1])?.into_iter().enumerate().collect();
            let right = name.starts_with('r');
            let f = &a[0];
            let by_fn = is_fn(f);
            if by_fn { callable(f, 1)?; }
            if right { v.reverse(); }
            for (i, x) in v {
                let hit = if by_fn { it.call(f, vec![x.clone()])?.truthy() } else { eq(f, &x) };
                if hit { return Ok(if name.ends_with("find") { x } else { V::Int(i as i64) }); }
            }
            Ok(if name.ends_with("find") { V::Nil } else { V::Int(-1) })
        }
        "push" => {
            match &a[1] {
                V::List(s) | V::Heap(s) => s.borrow_mut().push(a[0].clone()),
                V::Set(s) => { if reaches(&a[0], a[1].ptr()) { return recursive(); } let mut s = s.borrow_mut(); if !s.iter().any(|x| eq(x, &a[0])) { s.push(a[0].clone()); } }
                _ => return Err(Er::Any),
            }
            Ok(a[1].clone())
        }
        "push_front" => { if let V::List(s) = &a[1] { s.borrow_mut().insert(0, a[0].clone()); Ok(a[1].clone()) } else { Err(Er::Any) } }
        "pop" => match &a[0] {
            V::List(s) => s.borrow_mut().pop().ok_or(Er::Any),
            V::Set(s) => s.borrow_mut().pop().ok_or(Er::Any),
            V::Dict(d) => { let p = d.borrow_mut().kv.pop(); match p { Some((k, v)) => Ok(vector(vec![k, v])), None => Err(Er::Any) } }
            V::Heap(s) => heap_pop(&mut s.borrow_mut(), true),
            _ => Err(Er::Any),
        },
        "pop_front" => match &a[0] { V::List(s) => { let mut s = s.borrow_mut(); if s.is_empty() { Err(Er::Any) } else { Ok(s.remove(0)) } } _ => Err(Er::Any) },
        "peek" => match &a[0] {
            V::List(s) | V::Vector(s) | V::Set(s) => s.borrow().first().cloned().map_or_else(|| nonempty(name, vec![]).map(|_: Vec<V>| V::Nil), Ok),
            V::Dict(d) => match d.borrow().kv.first() { Some((k, v)) => Ok(vector(vec![k.clone(), v.clone()])), None => nonempty(name, vec![]).map(|_: Vec<V>| V::Nil) },
            V::Heap(s) => heap_pop(&mut s.borrow_mut(), false),
            _ => Err(Er::Any),
        },
        "insert" => match &a[2] {
            V::List(s) => {
                let i = need_int(&a[0])?;
                let n = s.borrow().len();
                if i < 0 { return Err(Er::Skip); }
                if i as usize > n { return Err(Er::Any); }
                s.borrow_mut().insert(i as usize, a[1].clone());
                Ok(a[2].clone())
            }
            V::Dict(d) => { if reaches(&a[0], a[2].ptr()) { return recursive(); } d.borrow_mut().put(a[0].clone(), a[1].clone()); Ok(a[2].clone()) }
            _ => Err(Er::Any),
        },
        "remove" => match &a[1] {
            V::List(s) => {
                let i = need_int(&a[0])?;
                let n = s.borrow().len();
                if i < 0 { return Err(Er::Skip); }
                if i as usize >= n { return Err(Er::Any); }
                Ok(s.borrow_mut().remove(i as usize))
            }
            V::Set(s) => { let p = s.borrow().iter().position(|x| eq(x, &a[0])); if let Some(p) = p { s.borrow_mut().remove(p); } Ok(V::Bool(p.is_some())) }
            V::Dict(d) => { let p = d.borrow().find(&a[0]); if let Some(p) = p { d.borrow_mut().kv.remove(p); } Ok(V::Bool(p.is_some())) }
            _ => Err(Er::Any),
        },
        "clear" => {
            match &a[0] { V::List(s) | V::Set(s) | V::Heap(s) => s.borrow_mut().clear(), V::Dict(d) => d.borrow_mut().kv.clear(), _ => return Err(Er::Any) }
            Ok(a[0].clone())
        }
        "keys" => match &a[0] { V::Dict(d) => Ok(set(d.borrow().kv.iter().map(|p| p.0.clone()))), v => expect(v, "dict") },
        "values" => match &a[0] { V::Dict(d) => Ok(list(d.borrow().kv.iter().map(|p| p.1.clone()).collect())), v => expect(v, "dict") },
        "default" => match &a[1] { V::Dict(d) => { d.borrow_mut().default = Some(a[0].clone()); Ok(a[1].clone()) } v => expect(v, "dict") },
        "union" | "intersect" | "difference" => {
            let s = match &a[1] { V::Set(s) => s.clone(), v => return expect(v, "set") };
            let other = iter_any(&a[0])?;
            let has = |v: &[V], x: &V| v.iter().any(|y| eq(x, y));
            let cur = s.borrow().clone();
            if name == "union" { for x in &other { if reaches(x, a[1].ptr()) { return recursive(); } if !has(&s.borrow(), x) { s.borrow_mut().push(x.clone()); } } return Ok(a[1].clone()); }
            *s.borrow_mut() = match name {
                "intersect" => cur.into_iter().filter(|x| has(&other, x)).collect(),
                _ => cur.into_iter().filter(|x| !has(&other, x)).collect(),
            };
            Ok(a[1].clone())
        }
        "abs" => match &a[0] {
            V::Bool(_) | V::Int(_) => Ok(V::Int(wrap63((a[0].as_int() as i128).abs()))),
            V::Cx(r, i) => Ok(cx(wrap64((*r as i128).abs()), wrap64((*i as i128).abs()))),
            V::Rat(r) => Ok(rat(Rat { n: r.n.abs(), d: r.d.clone() })),
            V::Vector(s) => { let mut v = Vec::new(); for x in s.borrow().iter() { v.push(apply(it, n, vec![x.clone()])?); } Ok(vector(v)) }
            v => msgv(&[v], |e| format!("TypeError: Cannot convert {} to an int", e[0])),
        },
        "sqrt" => match &a[0] {
            V::Bool(b) => Ok(V::Int(*b as i64)),
            V::Int(i) => if *i < 0 { msgv(&[&a[0]], |e| format!("ValueError: Expected {} to be non-negative", e[0])) } else { Ok(V::Int(Big::from(*i as i128).sqrt().to_i128().unwrap() as i64)) },
            V::Rat(r) => if r.n.neg { msgv(&[&a[0]], |e| format!("ValueError: Expected {} to be non-negative", e[0])) } else { Ok(rat(Rat::new(r.n.sqrt(), r.d.sqrt()))) },
            v => expect(v, "rational"),
        },
        "count_ones" => { let i = need_int(&a[0])?; Ok(V::Int(i.count_ones() as i64)) }
        "count_zeros" => { let i = need_int(&a[0])?; Ok(V::Int(i.count_zeros() as i64)) }
        "real" => match &a[0] { V::Cx(r, _) => Ok(V::Int(wrap63(*r as i128))), v if v.is_int() => Ok(V::Int(v.as_int())), v => expect(v, "complex") },
        "imag" => match &a[0] { V::Cx(_, i) => Ok(V::Int(wrap63(*i as i128))), v if v.is_int() => Ok(V::Int(0)), v => expect(v, "complex") },
        "numer" | "denom" => match &a[0] {
            V::Bool(_) | V::Int(_) | V::Rat(_) => { let r = ops::rparts(&a[0]); Ok(rat(Rat { n: if name == "numer" { r.n } else { r.d }, d: Big::from(1) })) }
            v => expect(v, "rational"),
        },
        "gcd" | "lcm" => {
            let v = nonempty(name, a)?;
            let mut r = need_int(&v[0])?;
            for x in &v[1..] { let x = need_int(x)?; r = if name == "gcd" { gcd(r, x) } else { lcm(r, x)? }; }
            // the sign of a single argument is not specified
            if v.len() == 1 && r < 0 { return Err(Er::Skip); }
            Ok(V::Int(r))
        }
        "join" => {
            let v = iter(&a[1])?;
            let s = need_str(&a[0])?;
            Ok(string(v.iter().map(to_str).collect::<Vec<_>>().join(&s)))
        }
        "split" => {
            let p = need_str(&a[0])?;
            let t = need_str(&a[1])?;
            if p.is_empty() { return Ok(list(t.chars().map(|c| string(c.to_string())).collect())); }
            // plain text patterns only; regular expressions have a model of their own
            if p.chars().any(|c| "\\.+*?()|[]{}^$".contains(c)) { return Err(Er::Skip); }
            Ok(list(t.split(&*p).map(string).collect()))
        }
        _ => Err(Er::Skip),
    }
}

fn expect_key(v: &V) -> R { msgv(&[v], |e| format!("TypeError: Expected {} to be a '<A, B> fn key(A) -> B' or '<A> cmp(A, A) -> int' function", e[0])) }
fn expect_fn(v: &V) -> R { msgv(&[v], |e| format!("TypeError: Expected {} to be a function", e[0])) }

/// Elements of the iterable argument and the check of the function argument: the order in which two bad arguments are reported is open
fn iter2(v: &V, f: &V, n: usize) -> Result<Vec<V>, Er> {
    match (iter(v), callable(f, n)) {
        (Err(_), Err(_)) => Err(Er::Any),
        (Err(e), _) => Err(e),
        (_, Err(e)) => Err(e),
        (Ok(v), Ok(())) => Ok(v),
    }
}

fn heap_pop(s: &mut Vec<V>, take: bool) -> R {
    if s.is_empty() { return Err(Er::Any); }
    let mut k = 0;
    for i in 1..s.len() { if ops::order(&s[i], &s[k])?.is_lt() { k = i; } }
    Ok(if take { s.remove(k) } else { s[k].clone() })
}

pub fn names() -> &'static [&'static str] {
    use std::sync::OnceLock;
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    N.get_or_init(|| TABLE.iter().map(|t| t.0).collect())
}
