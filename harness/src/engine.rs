//! Exhaustive enumeration engine: a parent process and `shards` worker processes, each of which enumerates the complete
//! choice tree deterministically and executes the executions of its own shard.

use std::collections::{BTreeMap, HashSet};
use std::hash::Hasher;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::runner::{self, End, Input, Obs};

pub const SHARDS: usize = 8;
const SHM: usize = 1 << 20;
/// A single execution that takes longer than this is a suspected hang; it is confirmed alone with `CONFIRM`
const HANG: Duration = Duration::from_secs(12);
const CONFIRM: Duration = Duration::from_secs(30);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

impl Tier {
    /// `q` in the quick tier, `t` in the thorough one
    pub fn pick<T>(self, q: T, t: T) -> T { if self == Tier::Quick { q } else { t } }
    pub fn name(self) -> &'static str { self.pick("quick", "thorough") }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = fxh();
    h.write(b);
    h.finish()
}
fn fxh() -> Fnv { Fnv(0xcbf29ce484222325) }
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
}

// ------------------------------------------------------------------------------------------------ choice tree

/// One path through the choice tree. `pick(n)` is a branching point with `n` alternatives, all of which are explored.
pub struct Ch {
    path: Vec<(u32, u32)>,
    pos: usize,
    shard: u64,
    shards: u64,
    split_at: Option<usize>,
    prod: u64,
    hash: u64,
    /// Set if the current subtree belongs to another shard (the generator keeps getting 0s, the result is ignored)
    pub skip: bool,
    /// Set by a generator to discard this path
    dead: bool,
}

const SPLIT: u64 = 400;

impl Ch {
    pub fn pick(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if self.skip || self.dead { return 0; }
        if n <= 1 { return 0; }
        let i = if self.pos < self.path.len() {
            assert_eq!(self.path[self.pos].0, n as u32, "generator is not deterministic");
            self.path[self.pos].1
        } else {
            self.path.push((n as u32, 0));
            0
        };
        self.pos += 1;
        if self.split_at.is_none() {
            self.prod *= n as u64;
            self.hash = (self.hash ^ (i as u64 + 1)).wrapping_mul(0x9E3779B97F4A7C15);
            self.hash ^= self.hash >> 31;
            if self.prod >= SPLIT {
                self.split_at = Some(self.pos);
                if self.hash % self.shards != self.shard { self.skip = true; }
            }
        }
        i as usize
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.pick(xs.len()); &xs[i] }
    pub fn flag(&mut self) -> bool { self.pick(2) == 1 }
    /// Abandon this path
    pub fn kill(&mut self) { self.dead = true; }
    pub fn dead(&self) -> bool { self.dead || self.skip }
}

// ------------------------------------------------------------------------------------------------ worker context

pub struct Violation {
    pub key: String,
    pub note: String,
    pub inputs: Vec<Input>,
    pub expected: String,
    pub actual: String,
}

pub struct Cx {
    pub property: String,
    pub tier: Tier,
    pub shard: usize,
    pub dir: PathBuf,
    shm: *mut u8,
    seq: u64,
    pub stats: BTreeMap<String, u64>,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub executions: u64,
    seen: HashSet<u64>,
    outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: usize,
    known: HashSet<String>,
    pub known_hit: Vec<String>,
    pub truncated: bool,
    pub deadline: Instant,
    counter: u64,
    resume: u64,
    pub scope: String,
    /// Compare the optimized with the plain execution instead of the plain execution with the model
    pub opt_compare: bool,
    /// With `opt_compare`: judge the use of memory instead
    pub memory: bool,
}

impl Cx {
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }

    pub fn stat(&mut self, name: &str, n: u64) { *self.stats.entry(name.to_string()).or_insert(0) += n; }

    /// Enumerate all paths of the generator `g`; `f` consumes each generated item belonging to this shard.
    pub fn explore<T>(&mut self, name: &str, mut g: impl FnMut(&mut Ch) -> Option<T>, mut f: impl FnMut(&mut Cx, T)) {
        self.scope = name.to_string();
        let mut ch = Ch { path: Vec::new(), pos: 0, shard: self.shard as u64, shards: SHARDS as u64, split_at: None, prod: 1, hash: fnv(name.as_bytes()), skip: false, dead: false };
        let h0 = ch.hash;
        let mut n = 0u64;
        let t0 = Instant::now();
        loop {
            ch.pos = 0;
            ch.split_at = None;
            ch.prod = 1;
            ch.hash = h0;
            ch.skip = false;
            ch.dead = false;
            let item = g(&mut ch);
            if !ch.skip && !ch.dead {
                let mine = ch.split_at.is_some() || ch.hash % ch.shards == ch.shard;
                if mine {
                    if let Some(item) = item {
                        n += 1;
                        f(self, item);
                    }
                }
            }
            ch.path.truncate(ch.pos);
            let more = loop {
                match ch.path.pop() {
                    None => break false,
                    Some((n, i)) if i + 1 < n => { ch.path.push((n, i + 1)); break true }
                    _ => {}
                }
            };
            if !more { break; }
            if self.stop() { break; }
        }
        self.stat(&format!("space:{}", name), n);
        if std::env::var("CMC_TIME").is_ok() && self.shard == 0 { eprintln!("{} {}: n={} {:?}", self.property, name, n, t0.elapsed()); }
    }

    /// Enumerate an indexable space
    pub fn each(&mut self, name: &str, n: u64, mut f: impl FnMut(&mut Cx, u64)) {
        self.scope = name.to_string();
        let mut k = 0;
        for i in 0..n {
            let h = (i.wrapping_add(fnv(name.as_bytes()))).wrapping_mul(0x9E3779B97F4A7C15) >> 40;
            if h % SHARDS as u64 != self.shard as u64 { continue; }
            k += 1;
            f(self, i);
            if self.stop() { break; }
        }
        self.stat(&format!("space:{}", name), k);
    }

    pub fn stop(&mut self) -> bool {
        if self.violations >= 25 { self.truncated = true; return true; }
        if self.executions & 63 == 0 && Instant::now() > self.deadline { self.truncated = true; return true; }
        false
    }

    /// True the first time this key is seen (by this shard): used to count distinct states and skip duplicates
    pub fn fresh(&mut self, key: &[u8]) -> bool {
        let f = self.seen.insert(fnv(key));
        if f { self.states += 1; }
        f
    }

    fn publish(&mut self, input: &Input) {
        let mut buf = Vec::with_capacity(256);
        input.serialize(&mut buf);
        let n = buf.len().min(SHM - 32);
        unsafe {
            let p = self.shm;
            *(p.add(8) as *mut u64) = n as u64;
            *(p.add(16) as *mut u64) = self.counter;
            std::ptr::copy_nonoverlapping(buf.as_ptr(), p.add(32), n);
            self.seq += 1;
            std::ptr::write_volatile(p as *mut u64, self.seq * 2 + 1);
        }
    }

    fn unpublish(&mut self) {
        unsafe { std::ptr::write_volatile(self.shm as *mut u64, self.seq * 2); }
    }

    /// Execute on the implementation. `None` only if this execution is one that previously killed the worker.
    pub fn exec(&mut self, input: &Input) -> Option<Obs> {
        self.counter += 1;
        if self.counter <= self.resume { return None; }
        self.publish(input);
        let o = runner::execute(input);
        self.unpublish();
        self.executions += 1;
        let mut h = fxh();
        h.write(o.out.as_bytes());
        h.write_u8(o.end as u8);
        h.write(o.first().as_bytes());
        if self.outcomes.len() < 2_000_000 { self.outcomes.insert(h.finish()); }
        Some(o)
    }

    /// Execute on the implementation, with the blocks and bytes which remain allocated; freed memory is overwritten if wanted
    pub fn exec_measured(&mut self, input: &Input, poison: bool) -> Option<(Obs, i64, i64)> {
        self.counter += 1;
        if self.counter <= self.resume { return None; }
        self.publish(input);
        let r = runner::measure(input, poison);
        self.unpublish();
        self.executions += 1;
        Some(r)
    }

    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 3 { self.samples.push(s.into()); }
        else if self.executions % 5003 == 0 && self.samples.len() < 6 { self.samples.push(s.into()); }
    }

    pub fn is_known(&self, key: &str) -> bool { self.known.contains(key) }

    pub fn violate(&mut self, v: Violation) {
        if self.known.contains(&v.key) {
            if !self.known_hit.contains(&v.key) { self.known_hit.push(v.key.clone()); }
            return;
        }
        self.violations += 1;
        let path = self.dir.join(format!("viol-{}-{}-{}.txt", self.shard, self.resume, self.violations));
        std::fs::write(path, render(&self.property, &v)).unwrap();
    }

    /// Common form: one input, expected observation text, and whether it agreed
    pub fn fail(&mut self, input: &Input, note: &str, expected: String, actual: &Obs) {
        let key = key_of(input);
        let note = format!("[{}] {}", self.scope, note);
        self.violate(Violation { key, note, inputs: vec![input.clone()], expected, actual: actual.canon() });
    }
}

pub fn key_of(input: &Input) -> String {
    let (h, f) = input.fields();
    format!("{} | {}", h, f.join(" ¦ ")).replace('\\', "\\\\").replace('\n', "\\n")
}

fn render(property: &str, v: &Violation) -> Vec<u8> {
    let mut b: Vec<u8> = Vec::new();
    writeln!(b, "cmc-replay property={}", property).unwrap();
    writeln!(b, "note: {}", v.note.replace('\n', " ⏎ ")).unwrap();
    writeln!(b, "key: {}", v.key.replace('\n', "\\n")).unwrap();
    writeln!(b, "inputs: {}", v.inputs.len()).unwrap();
    for i in &v.inputs { i.serialize(&mut b); }
    writeln!(b, "--- expected").unwrap();
    writeln!(b, "{}", v.expected).unwrap();
    writeln!(b, "--- actual").unwrap();
    writeln!(b, "{}", v.actual).unwrap();
    b
}

pub fn parse_replay(b: &[u8]) -> Option<(String, Vec<Input>, String)> {
    let mut pos = 0;
    let mut line = || { let e = b[pos..].iter().position(|c| *c == b'\n').map(|e| e + pos)?; let s = String::from_utf8_lossy(&b[pos..e]).to_string(); pos = e + 1; Some(s) };
    let head = line()?;
    line()?;
    line()?;
    let n: usize = line()?.strip_prefix("inputs: ")?.parse().ok()?;
    let mut v = Vec::new();
    for _ in 0..n { let (i, k) = Input::parse(&b[pos..])?; v.push(i); pos += k; }
    Some((head, v, String::from_utf8_lossy(&b[pos..]).to_string()))
}

// ------------------------------------------------------------------------------------------------ worker entry

pub type CheckFn = fn(&mut Cx);

fn map_shm(path: &Path) -> *mut u8 {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len(SHM as u64).unwrap();
    use std::os::fd::AsRawFd;
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), SHM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

pub fn limits() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

pub fn worker(property: &str, tier: Tier, shard: usize, dir: &Path, resume: u64, budget: u64, f: CheckFn, known: HashSet<String>) {
    limits();
    runner::install_hook();
    let work = dir.join(format!("w{}", shard));
    std::fs::create_dir_all(&work).unwrap();
    std::env::set_current_dir(&work).unwrap();
    let mut cx = Cx {
        property: property.to_string(), tier, shard, dir: dir.to_path_buf(), shm: map_shm(&dir.join(format!("shm-{}", shard))), seq: 0,
        stats: BTreeMap::new(), states: 0, transitions: 0, validated: 0, executions: 0, seen: HashSet::new(), outcomes: HashSet::new(),
        samples: Vec::new(), violations: 0, known, known_hit: Vec::new(), truncated: false,
        deadline: Instant::now() + Duration::from_secs(budget), counter: 0, resume, scope: String::new(), opt_compare: false, memory: false,
    };
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx))).is_err() {
        eprintln!("check code failed in space '{}': {}", cx.scope, runner::last_panic());
        std::process::exit(4);
    }
    let mut out = String::new();
    use std::fmt::Write as _;
    writeln!(out, "states {}", cx.states).unwrap();
    writeln!(out, "transitions {}", cx.transitions).unwrap();
    writeln!(out, "validated {}", cx.validated).unwrap();
    writeln!(out, "executions {}", cx.executions).unwrap();
    writeln!(out, "outcomes {}", cx.outcomes.len()).unwrap();
    writeln!(out, "truncated {}", cx.truncated as u8).unwrap();
    for (k, v) in &cx.stats { writeln!(out, "stat {} {}", v, k).unwrap(); }
    for s in &cx.samples { writeln!(out, "sample {}", s.replace('\\', "\\\\").replace('\n', "\\n")).unwrap(); }
    for s in &cx.known_hit { writeln!(out, "known {}", s).unwrap(); }
    let tmp = dir.join(format!("res-{}.tmp", shard));
    std::fs::write(&tmp, out).unwrap();
    std::fs::rename(tmp, dir.join(format!("res-{}.txt", shard))).unwrap();
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

// ------------------------------------------------------------------------------------------------ parent

pub struct Meta {
    pub id: &'static str,
    pub run: CheckFn,
    pub assumptions: &'static [&'static str],
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn spawn(exe: &Path, property: &str, tier: Tier, shard: usize, dir: &Path, resume: u64, budget: u64) -> Child {
    Command::new(exe).args(["worker", property, tier.name(), &shard.to_string(), dir.to_str().unwrap(), &resume.to_string(), &budget.to_string()])
        .stdin(Stdio::null()).stdout(Stdio::null())
        .env("CMC_PROBE", "probe-value")
        .spawn().expect("spawn worker")
}

fn shm_read(dir: &Path, shard: usize) -> (u64, u64, Option<Input>) {
    let b = std::fs::read(dir.join(format!("shm-{}", shard))).unwrap_or_default();
    if b.len() < 32 { return (0, 0, None); }
    let g = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    let n = (g(8) as usize).min(b.len() - 32);
    (g(0), g(16), Input::parse(&b[32..32 + n]).map(|x| x.0))
}

fn shm_seq(dir: &Path, shard: usize) -> u64 {
    use std::io::Read;
    let mut b = [0u8; 8];
    match std::fs::File::open(dir.join(format!("shm-{}", shard))) {
        Ok(mut f) => if f.read_exact(&mut b).is_ok() { u64::from_le_bytes(b) } else { 0 },
        Err(_) => 0
    }
}

/// Run one input alone in a fresh process. Returns None if it finished normally, or a description.
fn confirm(exe: &Path, dir: &Path, input: &Input) -> Option<String> {
    let mut b = Vec::new();
    input.serialize(&mut b);
    let p = dir.join("confirm.bin");
    std::fs::write(&p, b).unwrap();
    let mut c = Command::new(exe).args(["one", p.to_str().unwrap()]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).current_dir(dir).spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return if st.success() { None } else { Some(format!("the process died: {}", st)) };
        }
        if t.elapsed() > CONFIRM {
            let _ = c.kill();
            let _ = c.wait();
            return Some(format!("no result after {} s", CONFIRM.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn parent(m: &Meta, tier: Tier, verif: &Path, budget: u64) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("cmc-{}-{}", m.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut crashed: Vec<Violation> = Vec::new();
    struct W { child: Child, last: u64, since: Instant, restarts: u32, done: bool }
    let mut ws: Vec<W> = (0..SHARDS).map(|s| W { child: spawn(&exe, m.id, tier, s, &dir, 0, budget), last: 0, since: Instant::now(), restarts: 0, done: false }).collect();
    let mut broken: Option<String> = None;
    let known = load_known(verif, m.id);
    while broken.is_none() && ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(15));
        for s in 0..SHARDS {
            if ws[s].done { continue; }
            let mut dead: Option<String> = None;
            if let Some(st) = ws[s].child.try_wait().unwrap() {
                if st.success() { ws[s].done = true; continue; }
                dead = Some(format!("worker died: {}", st));
            } else {
                let q = shm_seq(&dir, s);
                if q != ws[s].last || q % 2 == 0 { ws[s].last = q; ws[s].since = Instant::now(); }
                else if ws[s].since.elapsed() > HANG {
                    let _ = ws[s].child.kill();
                    let _ = ws[s].child.wait();
                    dead = Some(String::from("an execution did not finish"));
                }
            }
            if let Some(why) = dead {
                let (q, counter, input) = shm_read(&dir, s);
                match input {
                    Some(i) if q % 2 == 1 => {
                        let fresh = crashed.iter().filter(|v| !known.iter().any(|k| *k == v.key)).count();
                        if fresh >= 3 { ws[s].done = true; continue; }
                        if let Some(d) = confirm(&exe, &dir, &i) {
                            crashed.push(Violation { key: key_of(&i), note: format!("crash or hang: {}", d), inputs: vec![i], expected: String::from("a result (output, or an ordinary error report)"), actual: d });
                        }
                        ws[s].restarts += 1;
                        let fresh = crashed.iter().filter(|v| !known.iter().any(|k| *k == v.key)).count();
                        if fresh >= 3 || ws[s].restarts > 20 { ws[s].done = true; continue; }
                        let left = budget.saturating_sub(t0.elapsed().as_secs()).max(5);
                        ws[s].child = spawn(&exe, m.id, tier, s, &dir, counter, left);
                        ws[s].since = Instant::now();
                    }
                    _ => { broken = Some(format!("shard {}: {} outside of an execution", s, why)); }
                }
            }
        }
    }
    for w in &mut ws { let _ = w.child.kill(); let _ = w.child.wait(); }
    if let Some(b) = broken {
        eprintln!("check {} failed: {}", m.id, b);
        let _ = std::fs::remove_dir_all(&dir);
        return 3;
    }

    // merge
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut known_hit: Vec<String> = Vec::new();
    for s in 0..SHARDS {
        let text = std::fs::read_to_string(dir.join(format!("res-{}.txt", s))).unwrap_or_default();
        for l in text.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "stat" => { let (n, k) = v.split_once(' ').unwrap(); *stats.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap(); }
                "sample" => if samples.len() < 12 { samples.push(v.to_string()) },
                "known" => if !known_hit.iter().any(|x| x == v) { known_hit.push(v.to_string()) },
                _ => *sum.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0),
            }
        }
    }
    // violations
    let rdir = verif.join("out").join("replay");
    std::fs::create_dir_all(&rdir).unwrap();
    let mut found: Vec<(usize, Vec<u8>)> = Vec::new();
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        if e.file_name().to_string_lossy().starts_with("viol-") {
            let b = std::fs::read(e.path()).unwrap();
            found.push((b.len(), b));
        }
    }
    for v in crashed {
        if known.iter().any(|k| *k == v.key) { if !known_hit.contains(&v.key) { known_hit.push(v.key.clone()); } continue; }
        found.push((0, render(m.id, &v)));
    }
    found.sort();
    let nviol = found.len();
    for k in &known {
        println!("KNOWN-FINDING: property={} {}{}", m.id, k, if known_hit.contains(k) { "" } else { " (not reached or not failing in this run)" });
    }
    if std::env::var("CMC_ALL").is_ok() {
        for (_, b) in &found {
            let t = String::from_utf8_lossy(b).to_string();
            let (head, tail) = t.split_once("--- expected").unwrap_or((&t, ""));
            let (e, a) = tail.split_once("--- actual").unwrap_or((tail, ""));
            println!("## {}\n   exp: {}\n   act: {}", head.lines().nth(2).unwrap_or("").trim_start_matches("key: ").replace("\\n", "\n      "), e.trim().replace('\n', " ⏎ "), a.trim().lines().take(12).collect::<Vec<_>>().join(" ⏎ "));
        }
    }
    for (i, (_, b)) in found.iter().take(5).enumerate() {
        let p = rdir.join(format!("{}-{}-{}.txt", m.id, tier.name(), i + 1));
        std::fs::write(&p, b).unwrap();
        println!("VIOLATION property={} replay={}", m.id, p.display());
        if i < 3 { println!("{}", String::from_utf8_lossy(b).lines().take(60).map(|l| format!("    {}", l)).collect::<Vec<_>>().join("\n")); }
    }
    let wall = t0.elapsed().as_secs_f64();
    let g = |k: &str| sum.get(k).copied().unwrap_or(0);
    let exhaustive = g("truncated") == 0 && nviol == 0;
    let mut ev = String::new();
    ev.push_str("{\n");
    ev.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n", json(m.id), json(tier.name()), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1)));
    ev.push_str("  \"coverage\": {\n");
    ev.push_str(&format!("    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"executions_of_implementation\": {},\n    \"distinct_observed_outcomes_per_shard_sum\": {},\n    \"exhaustive\": {},\n", g("states"), g("transitions"), g("validated"), g("executions"), g("outcomes"), exhaustive));
    ev.push_str(&format!("    \"spaces\": {{{}}},\n", stats.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!("    \"known_findings_hit\": {},\n", known_hit.len()));
    ev.push_str(&format!("    \"samples\": [{}]\n  }},\n", samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(",\n      ")));
    ev.push_str(&format!("  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", m.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "), wall, nviol));
    let edir = verif.join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{}.json", m.id)), ev).unwrap();
    println!("{} {}: states={} transitions={} validated={} executions={} outcomes={} exhaustive={} violations={} wall={:.1}s", m.id, tier.name(), g("states"), g("transitions"), g("validated"), g("executions"), g("outcomes"), exhaustive, nviol, wall);
    for (k, v) in &stats { println!("    {} = {}", k, v); }
    let _ = std::fs::remove_dir_all(&dir);
    if nviol > 0 { 1 } else { 0 }
}

/// Known findings: lines `finding: property=<id> key=<key>`
pub fn load_known(verif: &Path, id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let pre = format!("finding: property={} key=", id);
    text.lines().filter_map(|l| l.strip_prefix(&pre)).map(|s| s.to_string()).collect()
}

pub fn one(path: &Path) {
    limits();
    runner::install_hook();
    let b = std::fs::read(path).unwrap();
    let (i, _) = Input::parse(&b).unwrap();
    let o = runner::execute(&i);
    if std::env::var("CMC_SHOW").is_ok() { print!("{}", o.canon()); }
    let _ = std::io::stdout().flush();
    std::process::exit(if o.end == End::Panic { 0 } else { 0 });
}
