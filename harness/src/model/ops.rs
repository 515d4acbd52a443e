//! Reference operator semantics
use std::rc::Rc;

use super::ast::{BinOp, UnOp};
use super::interp::Er;
use super::num::*;
use super::value::*;
use super::{natives, value};

pub type R = Result<V, Er>;

pub fn msg<T, S: Into<String>>(s: S) -> Result<T, Er> { Err(Er::Msg(s.into())) }

/// An error message that mentions values: unknown if one of the values has an undocumented type name
pub fn msgv<T>(parts: &[&V], f: impl FnOnce(Vec<String>) -> String) -> Result<T, Er> {
    let mut v = Vec::new();
    for p in parts { match p.err() { Some(s) => v.push(s), None => return Err(Er::Any) } }
    Err(Er::Msg(f(v)))
}

pub fn unary(o: UnOp, a: &V) -> R {
    match (o, a) {
        (UnOp::LNot, _) => return Ok(V::Bool(!a.truthy())),
        (UnOp::Neg, V::Bool(_) | V::Int(_)) => return Ok(V::Int(wrap63(-(a.as_int() as i128)))),
        (UnOp::Neg, V::Cx(r, i)) => return Ok(cx(wrap64(-(*r as i128)), wrap64(-(*i as i128)))),
        (UnOp::Neg, V::Rat(r)) => return Ok(rat(r.neg())),
        (UnOp::Not, V::Bool(b)) => return Ok(V::Bool(!b)),
        (UnOp::Not, V::Int(i)) => return Ok(V::Int(!i)),
        (UnOp::Not, V::Cx(r, i)) => return Ok(cx(*r, wrap64(-(*i as i128)))),
        (_, V::Vector(s)) => {
            let mut v = Vec::new();
            for x in s.borrow().iter() { v.push(unary(o, x)?); }
            return Ok(vector(v));
        }
        _ => {}
    }
    match a.type_known() {
        Some(t) => msg(format!("TypeError: Operator unary '{}' is not supported for type {}", o.text().trim(), t)),
        None => Err(Er::Any),
    }
}

fn type_err(o: BinOp, a: &V, b: &V) -> R {
    let o = match o { BinOp::NotIn => BinOp::In, o => o };
    match (a.type_known(), b.type_known()) {
        (Some(l), Some(r)) => msg(format!("TypeError: Operator '{}' is not supported for arguments of type {} and {}", o.text(), l, r)),
        _ => Err(Er::Any),
    }
}

/// The largest text/collection the model builds; beyond it, it declines to predict
const LIMIT: i64 = 200_000;

fn floor_div(a: i128, b: i128) -> i128 { let q = a / b; if (a % b != 0) && ((a < 0) != (b < 0)) { q - 1 } else { q } }

/// (real, imaginary) of a complex-like value
fn cparts(v: &V) -> (i128, i128) { match v { V::Cx(a, b) => (*a as i128, *b as i128), _ => (v.as_int() as i128, 0) } }
pub fn rparts(v: &V) -> Rat { match v { V::Rat(r) => (**r).clone(), _ => Rat::int(v.as_int()) } }

pub fn binary(o: BinOp, a: &V, b: &V) -> R {
    use BinOp::*;
    let vi = |x: i128| Ok(V::Int(wrap63(x)));
    match o {
        Lt => return Ok(V::Bool(order(a, b)?.is_lt())),
        Gt => return Ok(V::Bool(order(a, b)?.is_gt())),
        Le => return Ok(V::Bool(order(a, b)?.is_le())),
        Ge => return Ok(V::Bool(order(a, b)?.is_ge())),
        Eq => return Ok(V::Bool(eq(a, b))),
        Ne => return Ok(V::Bool(!eq(a, b))),
        Max => return Ok(if order(a, b)?.is_gt() { a.clone() } else { b.clone() }),
        Min => return Ok(if order(a, b)?.is_gt() { b.clone() } else { a.clone() }),
        Is | IsNot => {
            return match is_type(a, b) {
                Some(r) => Ok(V::Bool(r != (o == IsNot))),
                None => msgv(&[b, a], |e| format!("TypeError: {} is not a type and cannot be used with binary 'is' on {}", e[0], e[1])),
            }
        }
        In | NotIn => {
            let r = match (a, b) {
                (V::Str(x), V::Str(y)) => y.contains(&**x),
                (V::Bool(_) | V::Int(_), V::Range(s, e, st)) => in_range(a.as_int(), *s, *e, *st),
                (_, V::List(s) | V::Set(s) | V::Heap(s) | V::Vector(s)) => s.borrow().iter().any(|x| eq(x, a)),
                (_, V::Dict(d)) => d.borrow().find(a).is_some(),
                _ => return type_err(o, a, b),
            };
            return Ok(V::Bool(r != (o == NotIn)));
        }
        Dot => return Err(Er::Skip),
        _ => {}
    }
    let int = a.is_int() && b.is_int();
    let cxl = (a.is_int() || matches!(a, V::Cx(..))) && (b.is_int() || matches!(b, V::Cx(..)));
    let ral = (a.is_int() || matches!(a, V::Rat(_))) && (b.is_int() || matches!(b, V::Rat(_)));
    match o {
        Add => {
            if int { return vi(a.as_int() as i128 + b.as_int() as i128); }
            if cxl { let (x, y) = (cparts(a), cparts(b)); return Ok(cx(wrap64(x.0 + y.0), wrap64(x.1 + y.1))); }
            if ral { return Ok(rat(rparts(a).add(&rparts(b)))); }
            match (a, b) {
                (V::List(x), V::List(y)) => { let mut v = x.borrow().clone(); v.extend(y.borrow().iter().cloned()); return Ok(value::list(v)); }
                (V::Str(_), _) | (_, V::Str(_)) => return Ok(string(format!("{}{}", to_str(a), to_str(b)))),
                _ => {}
            }
        }
        Sub => {
            if int { return vi(a.as_int() as i128 - b.as_int() as i128); }
            if cxl { let (x, y) = (cparts(a), cparts(b)); return Ok(cx(wrap64(x.0 - y.0), wrap64(x.1 - y.1))); }
            if ral { return Ok(rat(rparts(a).sub(&rparts(b)))); }
            if let (V::Set(x), V::Set(y)) = (a, b) { return Ok(set(x.borrow().iter().filter(|v| !y.borrow().iter().any(|w| eq(v, w))).cloned().collect::<Vec<_>>())); }
        }
        Mul => {
            if int { return vi(a.as_int() as i128 * b.as_int() as i128); }
            if cxl { let (x, y) = (cparts(a), cparts(b)); return Ok(cmul(x, y)); }
            if ral { return Ok(rat(rparts(a).mul(&rparts(b)))); }
            match (a, b) {
                (V::Str(s), V::Int(n)) | (V::Int(n), V::Str(s)) => {
                    if *n < 0 { return msg(format!("ValueError: Operator '*' is not supported for arguments of type str and negative integer {}", n)); }
                    if (s.len() as i128) * (*n as i128) > i32::MAX as i128 { return msg("ValueError: value would be too large!"); }
                    if (s.len() as i128) * (*n as i128) > LIMIT as i128 { return Err(Er::Skip); }
                    if s.is_empty() { return Ok(string(String::new())); }
                    return Ok(string(s.repeat(*n as usize)));
                }
                (V::List(s), V::Int(n)) | (V::Int(n), V::List(s)) => return repeat(s, *n, "*", |v| Ok(v.clone())),
                _ => {}
            }
        }
        Div => {
            if int {
                if b.as_int() == 0 { return msg("ValueError: Division by zero"); }
                return vi(floor_div(a.as_int() as i128, b.as_int() as i128));
            }
            if cxl {
                let (x, y) = (cparts(a), cparts(b));
                if y == (0, 0) { return msg("ValueError: Division by zero"); }
                // the exact quotient, rounded towards negative infinity; only defined while the norm is representable
                let n = y.0.checked_mul(y.0).and_then(|p| y.1.checked_mul(y.1).and_then(|q| p.checked_add(q)));
                let re = x.0.checked_mul(y.0).and_then(|p| x.1.checked_mul(y.1).and_then(|q| p.checked_add(q)));
                let im = x.1.checked_mul(y.0).and_then(|p| x.0.checked_mul(y.1).and_then(|q| p.checked_sub(q)));
                let fits = |v: Option<i128>| v.filter(|v| *v >= i64::MIN as i128 && *v <= i64::MAX as i128);
                return match (fits(n), fits(re), fits(im)) {
                    (Some(n), Some(re), Some(im)) => Ok(cx(wrap64(floor_div(re, n)), wrap64(floor_div(im, n)))),
                    _ => Err(Er::Skip),
                };
            }
            if ral {
                if rparts(b).is_zero() { return msg("ValueError: Division by zero"); }
                return Ok(rat(rparts(a).div(&rparts(b))));
            }
        }
        Mod => {
            if int {
                if b.as_int() == 0 { return msg("ValueError: Modulo by zero"); }
                let (x, y) = (a.as_int() as i128, b.as_int() as i128);
                return vi(x - y * floor_div(x, y));
            }
            if let (V::Cx(r, i), true) = (a, b.is_int()) {
                let y = b.as_int() as i128;
                if y == 0 { return msg("ValueError: Modulo by zero"); }
                let f = |x: i64| wrap64(x as i128 - y * floor_div(x as i128, y));
                return Ok(cx(f(*r), f(*i)));
            }
            if let V::Str(s) = a { return natives::format(s, b); }
        }
        Pow => {
            if b.is_int() && (a.is_int() || matches!(a, V::Cx(..))) {
                let n = b.as_int();
                if n < 0 { return msg(format!("ValueError: Power of an integral value by '{}' which is negative", n)); }
                if a.is_int() { return Ok(V::Int(ipow(a.as_int(), n as u64))); }
                return Ok(cpow(cparts(a), n as u64));
            }
            if let (V::Rat(r), true) = (a, b.is_int()) {
                let n = b.as_int();
                if n > i32::MAX as i64 || n < i32::MIN as i64 { return msg("ValueError: value would be too large!"); }
                if n.abs() > 200 { return Err(Er::Skip); }
                if n >= 0 { return Ok(rat(r.pow(n as u64))); }
                if r.is_zero() { return msg("ValueError: Division by zero"); }
                let p = r.pow(n.unsigned_abs());
                return Ok(rat(Rat::new(p.d, p.n)));
            }
            match (a, b) {
                (V::List(s), V::Int(n)) | (V::Int(n), V::List(s)) => return repeat(s, *n, "**", |v| natives::copy(v)),
                _ => {}
            }
        }
        Shl | Shr => if int { return Ok(V::Int(shift(a.as_int(), if o == Shl { b.as_int() } else { -b.as_int() }))); },
        And | Or | Xor => {
            let f = |x: i64, y: i64| match o { And => x & y, Or => x | y, _ => x ^ y };
            if let (V::Bool(x), V::Bool(y)) = (a, b) { return Ok(V::Bool(f(*x as i64, *y as i64) != 0)); }
            if int { return Ok(V::Int(f(a.as_int(), b.as_int()))); }
            if let (V::Set(x), V::Set(y)) = (a, b) {
                let (x, y) = (x.borrow(), y.borrow());
                let has = |s: &Vec<V>, v: &V| s.iter().any(|w| eq(v, w));
                return Ok(match o {
                    And => set(x.iter().filter(|v| has(&y, v)).cloned()),
                    Or => set(x.iter().chain(y.iter()).cloned()),
                    _ => set(x.iter().filter(|v| !has(&y, v)).chain(y.iter().filter(|v| !has(&x, v))).cloned()),
                });
            }
        }
        _ => unreachable!(),
    }
    // vectors: elementwise, with broadcasting of any other operand
    match (a, b) {
        (V::Vector(x), V::Vector(y)) => { let mut v = Vec::new(); for (p, q) in x.borrow().iter().zip(y.borrow().iter()) { v.push(binary(o, p, q)?); } Ok(vector(v)) }
        (V::Vector(x), _) => { let mut v = Vec::new(); for p in x.borrow().iter() { v.push(binary(o, p, b)?); } Ok(vector(v)) }
        (_, V::Vector(y)) => { let mut v = Vec::new(); for q in y.borrow().iter() { v.push(binary(o, a, q)?); } Ok(vector(v)) }
        _ => type_err(o, a, b),
    }
}

fn repeat(s: &Seq, n: i64, op: &str, f: impl Fn(&V) -> R) -> R {
    if n < 0 { return msg(format!("ValueError: Operator '{}' is not supported for arguments of type list and negative integer {}", op, n)); }
    let s = s.borrow();
    if s.len() as i128 * n as i128 > i32::MAX as i128 { return msg("ValueError: value would be too large!"); }
    if s.len() as i128 * n as i128 > LIMIT as i128 { return Err(Er::Skip); }
    if s.is_empty() { return Ok(value::list(Vec::new())); }
    let mut v = Vec::new();
    for _ in 0..n { for x in s.iter() { v.push(f(x)?); } }
    Ok(value::list(v))
}

fn cmul(x: (i128, i128), y: (i128, i128)) -> V {
    // products modulo 2^64 (each i64 x i64 product fits in i128)
    let re = wrap64(wrap64(x.0 * y.0) as i128 - wrap64(x.1 * y.1) as i128);
    let im = wrap64(wrap64(x.0 * y.1) as i128 + wrap64(x.1 * y.0) as i128);
    cx(re, im)
}

pub fn ipow(a: i64, mut n: u64) -> i64 {
    let (mut r, mut b) = (1i64, a);
    while n > 0 {
        if n & 1 == 1 { r = wrap63(r as i128 * b as i128); }
        b = wrap63(b as i128 * b as i128);
        n >>= 1;
    }
    r
}

fn cpow(a: (i128, i128), mut n: u64) -> V {
    let mul = |x: (i128, i128), y: (i128, i128)| -> (i128, i128) {
        (wrap64(wrap64(x.0 * y.0) as i128 - wrap64(x.1 * y.1) as i128) as i128, wrap64(wrap64(x.0 * y.1) as i128 + wrap64(x.1 * y.0) as i128) as i128)
    };
    let (mut r, mut b) = ((1i128, 0i128), a);
    while n > 0 {
        if n & 1 == 1 { r = mul(r, b); }
        b = mul(b, b);
        n >>= 1;
    }
    cx(r.0 as i64, r.1 as i64)
}

/// The order of two values, where it is documented: sets, dictionaries, heaps and lazy iterables have no documented order
pub fn order(a: &V, b: &V) -> Result<std::cmp::Ordering, Er> {
    fn open(v: &V, d: usize) -> bool {
        d == 0 || match v {
            V::Set(_) | V::Dict(_) | V::Heap(_) | V::Range(..) | V::Enumerate(_) => true,
            V::List(s) | V::Vector(s) => s.borrow().iter().any(|x| open(x, d - 1)),
            V::Struct(s) => s.values.borrow().iter().any(|x| open(x, d - 1)),
            _ => false,
        }
    }
    if open(a, 8) && open(b, 8) { return Err(Er::Skip); }
    Ok(cmp(a, b))
}

/// `a << b`, where a negative `b` shifts right
pub fn shift(a: i64, b: i64) -> i64 {
    if b >= 63 { 0 }
    else if b >= 0 { wrap63((a as i128) << b) }
    else if b <= -63 { if a < 0 { -1 } else { 0 } }
    else { a >> -b }
}

pub fn in_range(x: i64, s: i64, e: i64, st: i64) -> bool {
    if range_len(s, e, st) == 0 { return false; }
    let (x, s, e, st) = (x as i128, s as i128, e as i128, st as i128);
    (if st > 0 { x >= s && x < e } else { x <= s && x > e }) && (x - s) % st == 0
}

/// `a is b`; None if `b` is not a type
pub fn is_type(a: &V, b: &V) -> Option<bool> {
    Some(match b {
        V::Nil => matches!(a, V::Nil),
        V::Type(t) => if t.module { return Some(false) } else { matches!(a, V::Struct(s) if s.ty.id == t.id) },
        V::Native(Nat::Lib(n)) => match *n {
            "bool" => matches!(a, V::Bool(_)),
            "int" => a.is_int(),
            "complex" => a.is_int() || matches!(a, V::Cx(..)),
            "rational" => a.is_int() || matches!(a, V::Rat(_)),
            "str" => matches!(a, V::Str(_)),
            "function" => is_fn(a),
            "list" => matches!(a, V::List(_)),
            "set" => matches!(a, V::Set(_)),
            "dict" => matches!(a, V::Dict(_)),
            "heap" => matches!(a, V::Heap(_)),
            "vector" => matches!(a, V::Vector(_)),
            "iterable" => a.is_iterable(),
            "any" => true,
            _ => return None,
        },
        _ => return None,
    })
}

pub fn is_fn(a: &V) -> bool {
    matches!(a, V::Native(_) | V::PartialNative(..) | V::Func(_) | V::Partial(..) | V::Memo(_) | V::GetField(_) | V::Type(_) | V::Slice(_))
}

#[allow(dead_code)]
pub fn rc(v: V) -> Rc<V> { Rc::new(v) }
