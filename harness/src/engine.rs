//! Property runner: every random choice of a case comes from a recorded choice sequence, so a
//! failing case can be replayed and shrunk (by editing the sequence) without library support.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

/// A process that may die writes down what it does: choices as numbers, notes after a "#"
static TRACING: AtomicBool = AtomicBool::new(false);
static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);
pub fn trace_to(f: std::fs::File) {
    *TRACE.lock().unwrap() = Some(f);
    TRACING.store(true, Ordering::Relaxed);
}
fn trace(a: std::fmt::Arguments) {
    use std::io::Write;
    if let Some(f) = TRACE.lock().unwrap().as_mut() {
        let _ = f.write_fmt(a);
    }
}

/// Source of choices. Generating: choices come from a seeded generator and are recorded.
/// Replaying: choices come from a given sequence (0 once it is used up).
pub struct Src {
    state: u64,
    given: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    index: u64,
    /// thorough tier: properties may widen sizes
    pub thorough: bool,
}

impl Src {
    pub fn fresh(seed: u64, prop: &str, index: u64, thorough: bool) -> Self {
        let mut s = seed ^ hash_bytes(prop.as_bytes()).rotate_left(17);
        let a = splitmix(&mut s);
        let mut t = a ^ index.wrapping_mul(0xD134_2543_DE82_EF95);
        splitmix(&mut t);
        Src { state: t, given: None, rec: Vec::new(), index, thorough }
    }
    pub fn replay(choices: Vec<u64>, thorough: bool) -> Self {
        Src { state: 0, given: Some(choices), rec: Vec::new(), index: 0, thorough }
    }
    fn take(&mut self, n: u64, f: impl FnOnce(&mut Self) -> u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &self.given {
            Some(g) => {
                let v = g.get(self.rec.len()).copied().unwrap_or(0);
                v.min(n - 1)
            }
            None => f(self),
        };
        self.rec.push(v);
        if TRACING.load(Ordering::Relaxed) {
            trace(format_args!("{v}\n"));
        }
        v
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        self.take(n, |s| ((splitmix(&mut s.state) as u128 * n as u128) >> 64) as u64)
    }
    /// Enumerate: case i gets i mod n. Recorded like any other choice.
    pub fn sweep(&mut self, n: u64) -> u64 {
        let i = self.index;
        self.take(n, |_| i % n)
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        debug_assert!(lo <= hi_incl);
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }
    pub fn irange(&mut self, lo: i64, hi_incl: i64) -> i64 {
        lo + self.below((hi_incl - lo + 1) as u64) as i64
    }
    /// shrinks towards false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// in [lo, hi], in 1/1024 steps of the interval
    pub fn float(&mut self, lo: f64, hi: f64) -> f64 {
        let v = self.below(1025);
        lo + (hi - lo) * (v as f64) / 1024.0
    }
    /// symmetric in [-m, m], shrinking towards 0
    pub fn sym(&mut self, m: f64) -> f64 {
        let v = self.below(2049);
        let k = if v % 2 == 0 { (v / 2) as f64 } else { -(((v + 1) / 2) as f64) };
        m * k / 1024.0
    }
    /// size skewed towards small but reaching hi
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        match self.below(8) {
            0..=3 => self.range(lo, hi.min(lo + 12)),
            4..=5 => self.range(lo, hi.min(lo + 80)),
            _ => self.range(lo, hi),
        }
    }
    /// One recorded choice that expands into an unrecorded stream; for bulk data (pixel noise)
    /// where element-wise shrinking is useless. 0 expands to a fixed stream as well.
    pub fn bulk(&mut self) -> Bulk {
        let v = self.below(1 << 32);
        Bulk(v.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x51_7CC1_B727_220A)
    }
    /// k distinct values of 0..n in generation order
    pub fn distinct(&mut self, n: usize, k: usize) -> Vec<usize> {
        let k = k.min(n);
        let mut pool: Vec<usize> = (0..n).collect();
        let mut out = Vec::with_capacity(k);
        for i in 0..k {
            let j = i + self.below((n - i) as u64) as usize;
            pool.swap(i, j);
            out.push(pool[i]);
        }
        out
    }
}

pub struct Bulk(u64);
impl Bulk {
    pub fn next(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<(&'static str, String)>,
    pub desc: String,
}
impl Ctx {
    pub fn label(&mut self, k: &'static str, v: impl ToString) {
        self.labels.push((k, v.to_string()));
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if !self.desc.is_empty() {
            self.desc.push_str("; ");
        }
        self.desc.push_str(s.as_ref());
        if TRACING.load(Ordering::Relaxed) {
            trace(format_args!("#{}\n", s.as_ref().replace('\n', " ")));
        }
    }
}

pub type Outcome = Result<(), String>;
pub type PropFn = fn(&mut Src, &mut Ctx) -> Outcome;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: PropFn,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("panicked at {loc}: {msg}"));
    }));
}

/// Run `f`, turning a panic into Err(message with location)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

pub fn run_case(run: PropFn, src: &mut Src) -> (Ctx, Outcome) {
    let mut ctx = Ctx::default();
    let r = guard(|| run(src, &mut ctx));
    let out = match r {
        Ok(o) => o,
        Err(p) => Err(p),
    };
    (ctx, out)
}

pub struct Failure {
    pub index: u64,
    pub choices: Vec<u64>,
    pub msg: String,
    pub desc: String,
}

pub struct Report {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, BTreeMap<String, u64>>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub shrink_evals: u64,
    pub wall: f64,
}

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// Cases run on threads with the stack a thread has by default
pub const STACK: usize = 2 << 20;

/// What every worker is doing, in a file: the process that started this one looks there if this
/// one dies. A slot holds the index of the case plus one, or one of these:
pub const IDLE: u64 = 0;
pub const SHRINKING: u64 = u64::MAX;
pub struct Slots(Option<std::fs::File>);
impl Slots {
    pub fn open() -> Self {
        Slots(std::env::var_os("VERIF_SLOTS").and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()))
    }
    pub fn set(&self, slot: usize, v: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let _ = f.write_all_at(&v.to_le_bytes(), slot as u64 * 8);
        }
    }
}

/// For each worker: its thread and when (in its own CPU time) it began its case
pub struct Busy {
    pub tid: AtomicU64,
    pub case: AtomicU64,
}
pub static BUSY: [Busy; 16] = [const { Busy { tid: AtomicU64::new(0), case: AtomicU64::new(IDLE) } }; 16];

pub fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}

/// seconds of CPU time a thread of this process has used
pub fn cpu_of(tid: u64) -> Option<f64> {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = t.rsplit_once(')')?.1.split_whitespace().collect();
    let ticks = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(ticks / 100.0)
}

pub fn run_prop(p: &Prop, seed: u64, cases: u64, thorough: bool, threads: usize, unshrunk: &dyn Fn(&Failure)) -> Report {
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    struct Acc {
        evals: u64,
        seen: HashSet<u64>,
        labels: BTreeMap<String, BTreeMap<String, u64>>,
        samples: BTreeMap<u64, String>,
    }
    let total = Mutex::new(Acc { evals: 0, seen: HashSet::new(), labels: BTreeMap::new(), samples: BTreeMap::new() });
    let sample_stride = (cases / 6).max(1);
    let slots = Slots::open();
    let (slots, next, first_fail, fails, total) = (&slots, &next, &first_fail, &fails, &total);
    std::thread::scope(|sc| {
        for slot in 0..threads.min(BUSY.len()) {
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                BUSY[slot].tid.store(own_tid(), Ordering::Relaxed);
                let mut acc = Acc { evals: 0, seen: HashSet::new(), labels: BTreeMap::new(), samples: BTreeMap::new() };
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases || i > first_fail.load(Ordering::Relaxed) {
                        break;
                    }
                    slots.set(slot, i + 1);
                    BUSY[slot].case.store(i + 1, Ordering::Relaxed);
                    let mut src = Src::fresh(seed, p.id, i, thorough);
                    let (ctx, out) = run_case(p.run, &mut src);
                    BUSY[slot].case.store(IDLE, Ordering::Relaxed);
                    slots.set(slot, IDLE);
                    acc.evals += 1;
                    PROGRESS.fetch_add(1, Ordering::Relaxed);
                    for (k, v) in &ctx.labels {
                        *acc.labels.entry(k.to_string()).or_default().entry(v.clone()).or_default() += 1;
                    }
                    if ctx.nontrivial {
                        let mut b = Vec::with_capacity(src.rec.len() * 8);
                        for c in &src.rec {
                            b.extend_from_slice(&c.to_le_bytes());
                        }
                        acc.seen.insert(hash_bytes(&b));
                        if i % sample_stride < 3 && acc.samples.len() < 64 {
                            let mut d = ctx.desc.clone();
                            if d.len() > 600 {
                                let mut e = 600;
                                while !d.is_char_boundary(e) {
                                    e -= 1;
                                }
                                d.truncate(e);
                                d.push('…');
                            }
                            acc.samples.insert(i, format!("case {i}: {d}"));
                        }
                    }
                    if let Err(msg) = out {
                        first_fail.fetch_min(i, Ordering::Relaxed);
                        fails.lock().unwrap().push(Failure { index: i, choices: src.rec, msg, desc: ctx.desc });
                    }
                }
                let mut t = total.lock().unwrap();
                t.evals += acc.evals;
                t.seen.extend(acc.seen);
                for (k, m) in acc.labels {
                    let e = t.labels.entry(k).or_default();
                    for (v, c) in m {
                        *e.entry(v).or_default() += c;
                    }
                }
                t.samples.extend(acc.samples);
            })
            .unwrap();
        }
    });
    let mut fails = std::mem::take(&mut *fails.lock().unwrap());
    fails.sort_by_key(|f| f.index);
    let mut shrink_evals = 0;
    let failure = fails.into_iter().next().map(|f| {
        unshrunk(&f);
        slots.set(0, SHRINKING);
        BUSY[0].tid.store(own_tid(), Ordering::Relaxed);
        BUSY[0].case.store(SHRINKING, Ordering::Relaxed);
        let again = |c: Vec<u64>| {
            let mut src = Src::replay(c, thorough);
            let (ctx, out) = run_case(p.run, &mut src);
            out.err().map(|msg| (src.rec, msg, ctx.desc))
        };
        let (g, n) = shrink(&again, f, 45.0);
        slots.set(0, IDLE);
        BUSY[0].case.store(IDLE, Ordering::Relaxed);
        shrink_evals = n;
        g
    });
    let mut t = total.lock().unwrap();
    let t = std::mem::replace(&mut *t, Acc { evals: 0, seen: HashSet::new(), labels: BTreeMap::new(), samples: BTreeMap::new() });
    let mut samples: Vec<String> = Vec::new();
    let mut last_bucket = u64::MAX;
    for (i, s) in t.samples {
        let b = i / sample_stride;
        if b != last_bucket {
            samples.push(s);
            last_bucket = b;
        }
    }
    Report {
        evaluations: t.evals,
        distinct_nontrivial: t.seen.len() as u64,
        labels: t.labels,
        samples,
        failure,
        shrink_evals,
        wall: start.elapsed().as_secs_f64(),
    }
}

/// Shrink by editing the choice sequence: drop blocks, zero blocks, lower single values.
/// Bounded in evaluations and in wall-clock (the bound only affects how small the result gets).
pub fn shrink(again: &dyn Fn(Vec<u64>) -> Option<(Vec<u64>, String, String)>, f: Failure, seconds: f64) -> (Failure, u64) {
    let start = Instant::now();
    let evals = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let mut best = f;
    let try_one = |c: Vec<u64>, best: &mut Failure| -> bool {
        if stop.load(Ordering::Relaxed) || c == best.choices {
            return false;
        }
        let n = evals.fetch_add(1, Ordering::Relaxed);
        if n > 3000 || start.elapsed().as_secs_f64() > seconds {
            stop.store(true, Ordering::Relaxed);
            return false;
        }
        match again(c) {
            Some((mut rec, msg, desc)) => {
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                let smaller = rec.len() < best.choices.len()
                    || (rec.len() == best.choices.len() && rec < best.choices);
                if smaller {
                    *best = Failure { index: best.index, choices: rec, msg, desc };
                }
                smaller
            }
            None => false,
        }
    };
    loop {
        let before = best.choices.clone();
        let mut size = best.choices.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.choices.len() && !stop.load(Ordering::Relaxed) {
                let mut c = best.choices.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                if !try_one(c, &mut best) {
                    let mut c = best.choices.clone();
                    let end = (i + size).min(c.len());
                    if i < end && c[i..end].iter().any(|&v| v != 0) {
                        c[i..end].fill(0);
                        try_one(c, &mut best);
                    }
                    i += size;
                }
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.choices.len() && !stop.load(Ordering::Relaxed) {
            let mut lo = 0u64;
            let mut hi = best.choices[i];
            while lo < hi && i < best.choices.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.choices.clone();
                c[i] = mid;
                if try_one(c, &mut best) {
                    if i >= best.choices.len() {
                        break;
                    }
                    hi = best.choices[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best.choices == before || stop.load(Ordering::Relaxed) {
            break;
        }
    }
    (best, evals.load(Ordering::Relaxed) as u64)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
