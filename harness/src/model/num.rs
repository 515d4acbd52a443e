//! Reference numbers: 63-bit wrapping ints, a small arbitrary precision integer, and exact rationals in lowest terms.
use std::cmp::Ordering;

pub const MAX_INT: i64 = (1 << 62) - 1;
pub const MIN_INT: i64 = -(1 << 62);

/// Reduce modulo 2^63 into the signed 63-bit range
pub fn wrap63(x: i128) -> i64 {
    let m: i128 = 1 << 63;
    let r = x.rem_euclid(m);
    (if r >= m / 2 { r - m } else { r }) as i64
}
/// Reduce modulo 2^64 into the signed 64-bit range (components of complex values)
pub fn wrap64(x: i128) -> i64 {
    let m: i128 = 1 << 64;
    let r = x.rem_euclid(m);
    (if r >= m / 2 { r - m } else { r }) as i64
}

const BASE: u64 = 1_000_000_000;

/// Sign + magnitude, little endian base 10^9, no leading zeros; zero is non-negative
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big { pub neg: bool, pub d: Vec<u32> }

impl Big {
    pub fn from(x: i128) -> Big {
        let mut m = x.unsigned_abs();
        let mut d = Vec::new();
        while m > 0 { d.push((m % BASE as u128) as u32); m /= BASE as u128; }
        Big { neg: x < 0, d }
    }
    pub fn parse(s: &str) -> Option<Big> {
        let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s.strip_prefix('+').unwrap_or(s)) };
        if t.is_empty() || !t.chars().all(|c| c.is_ascii_digit()) { return None; }
        let mut r = Big::from(0);
        for c in t.chars() { r = r.mul(&Big::from(10)).add(&Big::from(c.to_digit(10).unwrap() as i128)); }
        if neg { r = r.neg(); }
        Some(r)
    }
    pub fn is_zero(&self) -> bool { self.d.is_empty() }
    fn norm(mut self) -> Big { while self.d.last() == Some(&0) { self.d.pop(); } if self.d.is_empty() { self.neg = false; } self }
    pub fn neg(&self) -> Big { Big { neg: !self.neg, d: self.d.clone() }.norm() }
    pub fn abs(&self) -> Big { Big { neg: false, d: self.d.clone() } }
    fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering { a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev())) }
    fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = Vec::new();
        let mut c = 0u64;
        for i in 0..a.len().max(b.len()) {
            let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
            r.push((s % BASE) as u32);
            c = s / BASE;
        }
        if c > 0 { r.push(c as u32); }
        r
    }
    fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = Vec::new();
        let mut br = 0i64;
        for i in 0..a.len() {
            let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
            if s < 0 { s += BASE as i64; br = 1 } else { br = 0 }
            r.push(s as u32);
        }
        r
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg { return Big { neg: self.neg, d: Big::add_mag(&self.d, &o.d) }.norm(); }
        match Big::cmp_mag(&self.d, &o.d) {
            Ordering::Equal => Big::from(0),
            Ordering::Greater => Big { neg: self.neg, d: Big::sub_mag(&self.d, &o.d) }.norm(),
            Ordering::Less => Big { neg: o.neg, d: Big::sub_mag(&o.d, &self.d) }.norm(),
        }
    }
    pub fn sub(&self, o: &Big) -> Big { self.add(&o.neg()) }
    pub fn mul(&self, o: &Big) -> Big {
        let mut r = vec![0u64; self.d.len() + o.d.len() + 1];
        for (i, a) in self.d.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.d.iter().enumerate() {
                let s = r[i + j] + *a as u64 * *b as u64 + c;
                r[i + j] = s % BASE;
                c = s / BASE;
            }
            let mut k = i + o.d.len();
            while c > 0 { let s = r[k] + c; r[k] = s % BASE; c = s / BASE; k += 1; }
        }
        Big { neg: self.neg != o.neg, d: r.into_iter().map(|x| x as u32).collect() }.norm()
    }
    /// Truncating division of magnitudes
    fn divmod_mag(a: &Big, b: &Big) -> (Big, Big) {
        let b = b.abs();
        let mut rem = Big::from(0);
        let mut q = vec![0u32; a.d.len()];
        for i in (0..a.d.len()).rev() {
            rem.d.insert(0, a.d[i]);
            rem = rem.norm();
            let (mut lo, mut hi) = (0u64, BASE - 1);
            while lo < hi {
                let mid = (lo + hi + 1) / 2;
                let p = b.mul(&Big::from(mid as i128));
                if Big::cmp_mag(&p.d, &rem.d) != Ordering::Greater { lo = mid } else { hi = mid - 1 }
            }
            q[i] = lo as u32;
            rem = rem.sub(&b.mul(&Big::from(lo as i128)));
        }
        (Big { neg: false, d: q }.norm(), rem)
    }
    pub fn gcd(&self, o: &Big) -> Big {
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() { let r = Big::divmod_mag(&a, &b).1; a = b; b = r; }
        a
    }
    /// Exact quotient
    pub fn div_exact(&self, o: &Big) -> Big {
        let (q, _) = Big::divmod_mag(&self.abs(), o);
        Big { neg: self.neg != o.neg, d: q.d }.norm()
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => Big::cmp_mag(&self.d, &o.d),
            (true, true) => Big::cmp_mag(&o.d, &self.d),
        }
    }
    pub fn sqrt(&self) -> Big {
        // largest y with y*y <= self, by bisection
        let mut lo = Big::from(0);
        let mut hi = self.add(&Big::from(1));
        let two = Big::from(2);
        while hi.sub(&lo).cmp(&Big::from(1)) == Ordering::Greater {
            let mid = Big::divmod_mag(&lo.add(&hi), &two).0;
            if mid.mul(&mid).cmp(self) != Ordering::Greater { lo = mid } else { hi = mid }
        }
        lo
    }
    pub fn to_i128(&self) -> Option<i128> {
        if self.d.len() > 4 { return None; }
        let mut r: i128 = 0;
        for x in self.d.iter().rev() { r = r * BASE as i128 + *x as i128; }
        Some(if self.neg { -r } else { r })
    }
    pub fn show(&self) -> String {
        if self.d.is_empty() { return String::from("0"); }
        let mut s = String::new();
        if self.neg { s.push('-'); }
        s.push_str(&self.d.last().unwrap().to_string());
        for x in self.d.iter().rev().skip(1) { s.push_str(&format!("{:09}", x)); }
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rat { pub n: Big, pub d: Big }

impl Rat {
    pub fn new(n: Big, d: Big) -> Rat {
        assert!(!d.is_zero());
        let g = n.gcd(&d);
        let (mut n, mut d) = if g.is_zero() { (n, d) } else { (n.div_exact(&g), d.div_exact(&g)) };
        if d.neg { n = n.neg(); d = d.neg(); }
        if n.is_zero() { d = Big::from(1); }
        Rat { n, d }
    }
    pub fn int(x: i64) -> Rat { Rat { n: Big::from(x as i128), d: Big::from(1) } }
    pub fn add(&self, o: &Rat) -> Rat { Rat::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d)) }
    pub fn sub(&self, o: &Rat) -> Rat { self.add(&o.neg()) }
    pub fn neg(&self) -> Rat { Rat { n: self.n.neg(), d: self.d.clone() } }
    pub fn mul(&self, o: &Rat) -> Rat { Rat::new(self.n.mul(&o.n), self.d.mul(&o.d)) }
    pub fn div(&self, o: &Rat) -> Rat { Rat::new(self.n.mul(&o.d), self.d.mul(&o.n)) }
    pub fn cmp(&self, o: &Rat) -> Ordering { self.n.mul(&o.d).cmp(&o.n.mul(&self.d)) }
    pub fn is_zero(&self) -> bool { self.n.is_zero() }
    pub fn is_int(&self) -> bool { self.d == Big::from(1) }
    pub fn show(&self) -> String { format!("{} / {}", self.n.show(), self.d.show()) }
    pub fn pow(&self, e: u64) -> Rat {
        let mut r = Rat::int(1);
        for _ in 0..e { r = r.mul(self); }
        r
    }
}
