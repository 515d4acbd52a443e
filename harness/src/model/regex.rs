//! A reference matcher for regular expressions: backtracking over the text in the order of preference
//! (leftmost position first, then the first alternative, the longest or shortest repetition first).

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Empty, Lit(char), Any, Set(bool, Vec<(char, char)>, Vec<char>), Start, End, Word(bool), Group(usize, Box<Re>), Cat(Vec<Re>), Alt(Vec<Re>),
    /// least and greatest number, greedy
    Rep(Box<Re>, usize, Option<usize>, bool), Atomic(Box<Re>),
    /// ahead, negative
    Look(bool, bool, Box<Re>), Back(usize),
}

pub struct Regex { pub re: Re, pub groups: usize, pub names: Vec<(String, usize)> }

/// `Unknown` where the syntax is not that of the reference
pub enum Parsed { Ok(Regex), Invalid, Unknown }

enum Bad { Invalid, Unknown }

struct P<'a> { s: &'a [char], i: usize, groups: usize, names: Vec<(String, usize)>, backs: Vec<usize> }

pub fn parse(s: &str) -> Parsed {
    let s: Vec<char> = s.chars().collect();
    let mut p = P { s: &s, i: 0, groups: 0, names: vec![], backs: vec![] };
    let r = match p.alt() { Ok(r) => r, Err(Bad::Invalid) => return Parsed::Invalid, Err(Bad::Unknown) => return Parsed::Unknown };
    if p.i < s.len() { return Parsed::Invalid; }
    if p.backs.iter().any(|b| *b == 0 || *b > p.groups) || (!p.names.is_empty() && !p.backs.is_empty()) { return Parsed::Unknown; }
    if odd(&r) { return Parsed::Unknown; }
    Parsed::Ok(Regex { re: r, groups: p.groups, names: p.names })
}

/// Implementations differ in repetitions of expressions which match the empty text or have anchors (the library finds `aa` for `(?:a$){2}`), and do not support all which look behind
fn odd(r: &Re) -> bool {
    match r {
        Re::Rep(b, _, max, _) => (*max != Some(1) && (nullable(b) || anchored(b))) || odd(b),
        Re::Group(_, b) | Re::Atomic(b) => odd(b),
        Re::Look(ahead, _, b) => (!ahead && width(b).is_none()) || odd(b),
        Re::Cat(v) | Re::Alt(v) => v.iter().any(odd),
        _ => false
    }
}
fn nullable(r: &Re) -> bool {
    match r {
        Re::Lit(_) | Re::Any | Re::Set(..) => false,
        Re::Rep(b, min, _, _) => *min == 0 || nullable(b),
        Re::Group(_, b) | Re::Atomic(b) => nullable(b),
        Re::Cat(v) => v.iter().all(nullable),
        Re::Alt(v) => v.iter().any(nullable),
        _ => true
    }
}
fn anchored(r: &Re) -> bool {
    match r {
        Re::Start | Re::End | Re::Word(_) => true,
        Re::Rep(b, ..) | Re::Group(_, b) | Re::Atomic(b) | Re::Look(_, _, b) => anchored(b),
        Re::Cat(v) | Re::Alt(v) => v.iter().any(anchored),
        _ => false
    }
}
fn width(r: &Re) -> Option<usize> {
    match r {
        Re::Lit(_) | Re::Any | Re::Set(..) => Some(1),
        Re::Rep(b, min, max, _) => if Some(*min) == *max { Some(width(b)? * min) } else { None },
        Re::Group(_, b) | Re::Atomic(b) => width(b),
        Re::Cat(v) => v.iter().map(width).sum(),
        Re::Alt(v) => { let w = width(v.first()?)?; if v.iter().all(|x| width(x) == Some(w)) { Some(w) } else { None } }
        Re::Back(_) => None,
        _ => Some(0)
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn has(&self, t: &str) -> bool { t.chars().enumerate().all(|(k, c)| self.s.get(self.i + k) == Some(&c)) }
    fn eat(&mut self, t: &str) -> bool { let b = self.has(t); if b { self.i += t.chars().count(); } b }
    fn alt(&mut self) -> Result<Re, Bad> {
        let mut v = vec![self.cat()?];
        while self.eat("|") { v.push(self.cat()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self) -> Result<Re, Bad> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' { break; }
            v.push(self.piece()?);
        }
        Ok(match v.len() { 0 => Re::Empty, 1 => v.pop().unwrap(), _ => Re::Cat(v) })
    }
    fn number(&mut self) -> Option<usize> {
        let k = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) { self.i += 1; }
        self.s[k..self.i].iter().collect::<String>().parse().ok()
    }
    /// a quantifier
    fn quantifier(&mut self) -> Result<Option<(usize, Option<usize>)>, Bad> {
        Ok(match self.peek() {
            Some('*') => { self.i += 1; Some((0, None)) }
            Some('+') => { self.i += 1; Some((1, None)) }
            Some('?') => { self.i += 1; Some((0, Some(1))) }
            Some('{') => {
                self.i += 1;
                let a = match self.number() { Some(a) => a, None => return Err(Bad::Unknown) };
                let b = if self.eat(",") { if self.has("}") { None } else { Some(self.number().ok_or(Bad::Unknown)?) } } else { Some(a) };
                if !self.eat("}") { return Err(Bad::Unknown); }
                if b.is_some_and(|b| b < a) { return Err(Bad::Invalid); }
                if a > 50 || b.is_some_and(|b| b > 50) { return Err(Bad::Unknown); }
                Some((a, b))
            }
            _ => None
        })
    }
    fn piece(&mut self) -> Result<Re, Bad> {
        if matches!(self.peek(), Some('*' | '+' | '?')) { return Err(Bad::Invalid); }
        let a = self.atom()?;
        Ok(match self.quantifier()? {
            None => a,
            Some((min, max)) => {
                if matches!(a, Re::Start | Re::End | Re::Look(..) | Re::Empty | Re::Word(_)) { return Err(Bad::Unknown); }
                let greedy = !self.eat("?");
                let mut r = Re::Rep(Box::new(a), min, max, greedy);
                if self.eat("+") { r = Re::Atomic(Box::new(r)); }
                if self.has("{") { return Err(Bad::Unknown); }
                r
            }
        })
    }
    fn atom(&mut self) -> Result<Re, Bad> {
        let c = self.peek().unwrap();
        self.i += 1;
        Ok(match c {
            '.' => Re::Any,
            '^' => Re::Start,
            '$' => Re::End,
            '{' => return Err(Bad::Unknown),
            '(' => {
                enum K { Plain, Group(usize), Atomic, Look(bool, bool) }
                let k = if self.eat("?:") { K::Plain } else if self.eat("?=") { K::Look(true, false) } else if self.eat("?!") { K::Look(true, true) } else if self.eat("?<=") { K::Look(false, false) } else if self.eat("?<!") { K::Look(false, true) } else if self.eat("?>") { K::Atomic }
                    else if self.eat("?P<") || self.eat("?<") {
                        let k = self.i;
                        while self.peek().is_some_and(|c| c.is_alphanumeric() || c == '_') { self.i += 1; }
                        let n: String = self.s[k..self.i].iter().collect();
                        if n.is_empty() || n.starts_with(|c: char| c.is_numeric()) || !self.eat(">") || self.names.iter().any(|x| x.0 == n) { return Err(Bad::Unknown); }
                        self.groups += 1;
                        self.names.push((n, self.groups));
                        K::Group(self.groups)
                    } else if self.has("?") || self.has("*") { return Err(Bad::Unknown); }
                    else { self.groups += 1; K::Group(self.groups) };
                let r = self.alt()?;
                if !self.eat(")") { return Err(Bad::Invalid); }
                match k { K::Plain => if r == Re::Empty { Re::Cat(vec![]) } else { r }, K::Group(n) => Re::Group(n, Box::new(r)), K::Atomic => Re::Atomic(Box::new(r)), K::Look(a, n) => Re::Look(a, n, Box::new(r)) }
            }
            '\\' => {
                let c = match self.peek() { Some(c) => c, None => return Err(Bad::Invalid) };
                self.i += 1;
                match c {
                    'd' | 'D' | 'w' | 'W' | 's' | 'S' => Re::Set(false, vec![], vec![c]),
                    'n' => Re::Lit('\n'), 't' => Re::Lit('\t'), 'r' => Re::Lit('\r'),
                    'b' => Re::Word(true), 'B' => Re::Word(false),
                    '1'..='9' => {
                        if self.peek().is_some_and(|c| c.is_ascii_digit()) { return Err(Bad::Unknown); }
                        let n = c as usize - '0' as usize;
                        // references to groups which are not complete
                        if n > self.groups { return Err(Bad::Unknown); }
                        self.backs.push(n);
                        Re::Back(n)
                    }
                    c if c.is_ascii_punctuation() => Re::Lit(c),
                    _ => return Err(Bad::Unknown)
                }
            }
            '[' => return self.set(),
            c => Re::Lit(c)
        })
    }
    fn set(&mut self) -> Result<Re, Bad> {
        let neg = self.eat("^");
        let (mut ranges, mut kinds) = (vec![], vec![]);
        if matches!(self.peek(), Some(']' | '-')) { return Err(Bad::Unknown); }
        loop {
            let c = match self.peek() { Some(c) => c, None => return Err(Bad::Invalid) };
            self.i += 1;
            let a = match c {
                ']' => return Ok(Re::Set(neg, ranges, kinds)),
                '[' | '&' | '~' | '-' => return Err(Bad::Unknown),
                '\\' => match self.peek() {
                    None => return Err(Bad::Invalid),
                    Some(c @ ('d' | 'D' | 'w' | 'W' | 's' | 'S')) => { self.i += 1; kinds.push(c); if self.has("-") { return Err(Bad::Unknown); } continue; }
                    Some('n') => { self.i += 1; '\n' } Some('t') => { self.i += 1; '\t' }
                    Some(c) if c.is_ascii_punctuation() => { self.i += 1; c }
                    _ => return Err(Bad::Unknown)
                },
                c => c
            };
            if self.eat("-") {
                let b = match self.peek() { None => return Err(Bad::Invalid), Some(c) if c.is_alphanumeric() => c, _ => return Err(Bad::Unknown) };
                self.i += 1;
                if b < a { return Err(Bad::Invalid); }
                ranges.push((a, b));
            } else { ranges.push((a, a)); }
        }
    }
}

pub type Caps = Vec<Option<(usize, usize)>>;

fn word(c: char) -> bool { c.is_alphanumeric() || c == '_' }
fn kind(k: char, c: char) -> bool { match k { 'd' => c.is_numeric(), 'D' => !c.is_numeric(), 'w' => word(c), 'W' => !word(c), 's' => c.is_whitespace(), _ => !c.is_whitespace() } }

type K<'k> = &'k mut dyn FnMut(usize, &mut Caps) -> bool;

fn step(r: &Re, t: &[char], i: usize, caps: &mut Caps, k: K) -> bool {
    let one = |ok: bool| ok;
    match r {
        Re::Empty => k(i, caps),
        Re::Lit(c) => one(t.get(i) == Some(c)) && k(i + 1, caps),
        Re::Any => t.get(i).is_some_and(|c| *c != '\n') && k(i + 1, caps),
        Re::Set(neg, v, ks) => t.get(i).is_some_and(|c| (v.iter().any(|(a, b)| a <= c && c <= b) || ks.iter().any(|k| kind(*k, *c))) != *neg) && k(i + 1, caps),
        Re::Start => i == 0 && k(i, caps),
        Re::End => i == t.len() && k(i, caps),
        Re::Word(want) => { let a = i > 0 && word(t[i - 1]); let b = i < t.len() && word(t[i]); ((a != b) == *want) && k(i, caps) }
        Re::Group(n, b) => {
            let was = caps[*n];
            if step(b, t, i, caps, &mut |j, caps| { let w = caps[*n]; caps[*n] = Some((i, j)); let r = k(j, caps); if !r { caps[*n] = w; } r }) { return true; }
            caps[*n] = was;
            false
        }
        Re::Cat(v) => seq(v, t, i, caps, k),
        Re::Alt(v) => v.iter().any(|x| step(x, t, i, caps, k)),
        Re::Rep(b, min, max, greedy) => rep(b, *min, *max, *greedy, t, i, caps, k),
        Re::Atomic(b) => {
            let was = caps.clone();
            let mut end = None;
            if !step(b, t, i, caps, &mut |j, _| { end = Some(j); true }) { *caps = was; return false; }
            if k(end.unwrap(), caps) { return true; }
            *caps = was;
            false
        }
        Re::Look(ahead, neg, b) => {
            let was = caps.clone();
            let from = if *ahead { Some(i) } else { i.checked_sub(width(b).unwrap()) };
            let hit = match from { Some(f) => step(b, t, f, caps, &mut |j, _| *ahead || j == i), None => false };
            if hit == *neg { *caps = was; return false; }
            if *neg { *caps = was.clone(); }
            if k(i, caps) { return true; }
            *caps = was;
            false
        }
        Re::Back(n) => match caps[*n] { Some((a, b)) => t[i..].starts_with(&t[a..b]) && k(i + b - a, caps), None => false }
    }
}
fn seq(v: &[Re], t: &[char], i: usize, caps: &mut Caps, k: K) -> bool {
    match v { [] => k(i, caps), [x] => step(x, t, i, caps, k), [x, rest @ ..] => step(x, t, i, caps, &mut |j, caps| seq(rest, t, j, caps, k)) }
}
fn rep(b: &Re, min: usize, max: Option<usize>, greedy: bool, t: &[char], i: usize, caps: &mut Caps, k: K) -> bool {
    if max == Some(0) { return k(i, caps); }
    if min > 0 { return step(b, t, i, caps, &mut |j, caps| rep(b, min - 1, max.map(|m| m - 1), greedy, t, j, caps, k)); }
    if !greedy && k(i, caps) { return true; }
    if step(b, t, i, caps, &mut |j, caps| (j > i || max == Some(1)) && rep(b, 0, max.map(|m| m - 1), greedy, t, j, caps, k)) { return true; }
    greedy && k(i, caps)
}

impl Regex {
    /// The leftmost match from a position on: the whole match, then the groups
    pub fn find(&self, t: &[char], from: usize) -> Option<Caps> {
        for i in from..=t.len() {
            let mut caps = vec![None; self.groups + 1];
            let mut end = None;
            let mut found = None;
            if step(&self.re, t, i, &mut caps, &mut |j, c| { end = Some(j); found = Some(c.clone()); true }) {
                let mut c = found.unwrap();
                c[0] = Some((i, end.unwrap()));
                return Some(c);
            }
        }
        None
    }
    /// The successive matches: after an empty match, one character is skipped, and an empty match directly after another match is none
    pub fn matches(&self, t: &[char]) -> Vec<Caps> {
        let mut v: Vec<Caps> = vec![];
        let mut from = 0;
        let mut last = None;
        while from <= t.len() {
            let c = match self.find(t, from) { Some(c) => c, None => break };
            let (a, b) = c[0].unwrap();
            if a == b {
                from = b + 1;
                if last == Some(b) { continue; }
            } else { from = b; }
            last = Some(b);
            v.push(c);
        }
        v
    }
    /// A template, where `$` and a name or number stand for a group
    pub fn expand(&self, template: &str, t: &[char], c: &Caps) -> String {
        let s: Vec<char> = template.chars().collect();
        let mut out = String::new();
        let text = |c: &Caps, n: &str| -> String {
            let g = self.names.iter().find(|x| x.0 == n).map(|x| x.1).or_else(|| n.parse::<usize>().ok());
            g.and_then(|g| c.get(g).copied().flatten()).map(|(a, b)| t[a..b].iter().collect()).unwrap_or_default()
        };
        let mut i = 0;
        while i < s.len() {
            if s[i] != '$' { out.push(s[i]); i += 1; continue; }
            i += 1;
            if s.get(i) == Some(&'$') { out.push('$'); i += 1; continue; }
            let open = s.get(i) == Some(&'{');
            let k = i + open as usize;
            let n: String = s[k..].iter().take_while(|c| word(**c)).collect();
            let end = k + n.chars().count();
            if n.is_empty() || (open && s.get(end) != Some(&'}')) { out.push('$'); continue; }
            out += &text(c, &n);
            i = end + open as usize;
        }
        out
    }
}
