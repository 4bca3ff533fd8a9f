//! Choice-sequence property-testing engine.
//!
//! A case is whatever a property builds out of a `Src`, a source of bounded integer choices. In
//! search mode the choices come from a PRNG seeded by (VERIF_SEED, property, case index) and are
//! recorded; in replay mode they come from a list. A failing case is therefore reproduced by its
//! choice list alone, and it is shrunk by editing that list (delete / zero / lower) and re-running.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9ABC_DEF0u64;
    for p in parts {
        h ^= *p;
        h = splitmix(&mut h);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// A source of bounded choices; smaller choices are "simpler".
pub struct Src {
    rng: Option<Rng>,
    list: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    /// Choices are also written here as they are made, for cases that end the process.
    pub log: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), list: Vec::new(), pos: 0, rec: Vec::new(), log: None }
    }
    pub fn replay(list: Vec<u64>) -> Src {
        Src { rng: None, list, pos: 0, rec: Vec::new(), log: None }
    }
    fn record(&mut self, v: u64) {
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            let _ = std::io::Write::write_all(f, format!("{} ", v).as_bytes());
        }
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                ((x as u128 * n as u128) >> 64) as u64
            }
            None => {
                let v = self.list.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v < n { v } else { v % n }
            }
        };
        self.record(v);
        v
    }
    pub fn bits(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => {
                let v = self.list.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        };
        self.record(v);
        v
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Index chosen with the given weights; put the simplest alternative first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
}

/// What a case reports about itself, besides pass/fail.
#[derive(Default)]
pub struct Info {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub desc: String,
    /// Extra sub-evaluations performed inside the case (fault points, mutations, ...).
    pub sub: u64,
}

impl Info {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
}

pub type Check = fn(&mut Src, &mut Info) -> Result<(), String>;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|pi| {
        let msg = if let Some(s) = pi.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = pi.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = pi.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(last_panic()),
    }
}

pub fn run_once(check: Check, src: &mut Src, info: &mut Info) -> Result<(), String> {
    match guarded(|| check(src, info)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}

pub struct Failure {
    pub case_index: u64,
    pub message: String,
    pub choices: Vec<u64>,
    pub desc: String,
    pub shrunk_from: usize,
}

pub struct Report {
    pub evaluations: u64,
    pub sub_evaluations: u64,
    pub nontrivial: u64,
    /// Hashes of the non-trivial cases.
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    /// The case that took longest, and its seconds.
    pub slowest: (f64, u64),
    pub failure: Option<Failure>,
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    hash64(&[seed, hash_str(id), index])
}

/// Runs the cases `from`..`cases`, or as many as fit in `time`.
pub fn run(id: &str, check: Check, fixed: &[&[u64]], seed: u64, from: u64, cases: u64, threads: usize, time: Duration) -> Report {
    let t0 = Instant::now();
    let next = AtomicU64::new(from);
    let stop_at = AtomicU64::new(u64::MAX);
    let first: Mutex<Option<(u64, String, Vec<u64>)>> = Mutex::new(None);
    struct Acc {
        evals: u64,
        sub: u64,
        labels: BTreeMap<&'static str, u64>,
        distinct: HashSet<u64>,
        samples: Vec<(u64, String)>,
        slowest: (f64, u64),
    }
    let total: Mutex<Acc> = Mutex::new(Acc { evals: 0, sub: 0, labels: BTreeMap::new(), distinct: HashSet::new(), samples: Vec::new(), slowest: (0.0, 0) });
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop_at, first, total) = (&next, &stop_at, &first, &total);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut acc = Acc { evals: 0, sub: 0, labels: BTreeMap::new(), distinct: HashSet::new(), samples: Vec::new(), slowest: (0.0, 0) };
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases || i > stop_at.load(Ordering::SeqCst) || t0.elapsed() > time {
                            break;
                        }
                        let mut src = match fixed.get(i as usize) {
                            Some(l) => Src::replay(l.to_vec()),
                            None => Src::random(case_seed(seed, id, i)),
                        };
                        let mut info = Info::default();
                        begin_case(t, i);
                        let began = Instant::now();
                        let r = run_once(check, &mut src, &mut info);
                        end_case(t);
                        let took = began.elapsed().as_secs_f64();
                        if took > acc.slowest.0 {
                            acc.slowest = (took, i);
                        }
                        acc.evals += 1;
                        acc.sub += info.sub;
                        for l in &info.labels {
                            *acc.labels.entry(l).or_insert(0) += 1;
                        }
                        if info.nontrivial {
                            acc.distinct.insert(hash64(&src.rec));
                            if acc.samples.len() < 4 && !info.desc.is_empty() {
                                acc.samples.push((i, std::mem::take(&mut info.desc)));
                            }
                        }
                        if let Err(msg) = r {
                            let mut f = first.lock().unwrap();
                            if f.as_ref().map_or(true, |(j, _, _)| i < *j) {
                                *f = Some((i, msg, src.rec));
                                stop_at.store(i, Ordering::SeqCst);
                            }
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.evals += acc.evals;
                    t.sub += acc.sub;
                    for (l, n) in acc.labels {
                        *t.labels.entry(l).or_insert(0) += n;
                    }
                    t.distinct.extend(acc.distinct);
                    t.samples.extend(acc.samples);
                    if acc.slowest.0 > t.slowest.0 {
                        t.slowest = acc.slowest;
                    }
                })
                .unwrap();
        }
    });
    let mut t = total.into_inner().unwrap();
    t.samples.sort();
    let failure = first.into_inner().unwrap().map(|(i, msg, rec)| Failure {
        case_index: i,
        message: msg,
        shrunk_from: rec.len(),
        choices: rec,
        desc: String::new(),
    });
    Report {
        evaluations: t.evals,
        sub_evaluations: t.sub,
        nontrivial: t.distinct.len() as u64,
        distinct: t.distinct,
        labels: t.labels,
        slowest: t.slowest,
        samples: t.samples.into_iter().take(4).map(|(i, s)| format!("case {}: {}", i, s)).collect(),
        failure,
    }
}

/// Greedy shrinking of the choice list. Any failure of the same check is accepted.
pub fn shrink(check: Check, rec: Vec<u64>, msg: String, budget: Duration) -> (Vec<u64>, String, String) {
    // The worker threads have big stacks; give the shrinker one, too.
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, move || {
                shrink_with(rec, msg, budget, &|l: &[u64]| {
                    let mut src = Src::replay(l.to_vec());
                    let mut info = Info::default();
                    begin_case(SLOTS - 1, 0);
                    let r = run_once(check, &mut src, &mut info);
                    end_case(SLOTS - 1);
                    match r {
                        Err(m) => Some((src.rec, m, info.desc)),
                        Ok(()) => None,
                    }
                })
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

/// `try_list` gives the choices actually used, the message and the description if the list fails.
pub fn shrink_with(
    rec: Vec<u64>,
    msg: String,
    budget: Duration,
    try_list: &dyn Fn(&[u64]) -> Option<(Vec<u64>, String, String)>,
) -> (Vec<u64>, String, String) {
                let start = Instant::now();
                let mut best = rec;
                let mut best_msg = msg;
                let mut desc = String::new();
                if let Some((_, m, d)) = try_list(&best) {
                    best_msg = m;
                    desc = d;
                }
                let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
                let mut improved = true;
                while improved && start.elapsed() < budget {
                    improved = false;
                    // delete blocks
                    let mut size = best.len() / 2;
                    while size >= 1 {
                        let mut i = best.len();
                        while i > 0 {
                            if start.elapsed() >= budget {
                                break;
                            }
                            let hi = i.min(best.len());
                            let lo = hi.saturating_sub(size);
                            if hi > lo {
                                let mut c = best[..lo].to_vec();
                                c.extend_from_slice(&best[hi..]);
                                if let Some((r, m, d)) = try_list(&c) {
                                    if simpler(&r, &best) {
                                        best = r;
                                        best_msg = m;
                                        desc = d;
                                        improved = true;
                                    }
                                }
                            }
                            i = lo;
                        }
                        size /= 2;
                    }
                    // zero blocks, then lower single choices
                    let mut size = 64usize.min(best.len().max(1));
                    while size >= 1 {
                        let mut i = 0;
                        while i < best.len() {
                            if start.elapsed() >= budget {
                                break;
                            }
                            let hi = (i + size).min(best.len());
                            if best[i..hi].iter().any(|&x| x != 0) {
                                let mut c = best.clone();
                                for x in &mut c[i..hi] {
                                    *x = 0;
                                }
                                if let Some((r, m, d)) = try_list(&c) {
                                    if simpler(&r, &best) {
                                        best = r;
                                        best_msg = m;
                                        desc = d;
                                        improved = true;
                                    }
                                }
                            }
                            i += size;
                        }
                        size /= 2;
                    }
                    let mut i = 0;
                    while i < best.len() && start.elapsed() < budget {
                        let mut hi = best[i];
                        let mut lo = 0;
                        // binary search for the lowest failing value (assumes monotone; harmless if not)
                        let mut tries = 0;
                        while lo < hi && tries < 20 && i < best.len() {
                            tries += 1;
                            let mid = lo + (hi - lo) / 2;
                            let mut c = best.clone();
                            c[i] = mid;
                            match try_list(&c) {
                                Some((r, m, d)) if simpler(&r, &best) => {
                                    best = r;
                                    best_msg = m;
                                    desc = d;
                                    improved = true;
                                    hi = mid;
                                }
                                _ => lo = mid + 1,
                            }
                        }
                        i += 1;
                    }
                }
                (best, best_msg, desc)
}

/// What is running, for the supervising process and for the hang monitor.
pub const SLOTS: usize = 64;

struct Progress {
    file: std::fs::File,
    start: Vec<AtomicU64>,
    t0: Instant,
}

static PROGRESS: std::sync::OnceLock<Progress> = std::sync::OnceLock::new();

/// Exit code of a run that gave up on a case that does not end.
pub const HANG: i32 = 4;

/// Record the running cases in `path`; end the process when one of them runs for longer than
/// `limit` (`reported` says whether a violation has been reported already).
pub fn progress_to(path: &str, limit: Duration) {
    use std::io::Write;
    let mut file = match std::fs::File::create(path) {
        Ok(f) => f,
        Err(_) => return,
    };
    let _ = file.write_all(&[0; 8 * SLOTS]);
    let start = (0..SLOTS).map(|_| AtomicU64::new(0)).collect();
    let _ = PROGRESS.set(Progress { file, start, t0: Instant::now() });
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some(p) = PROGRESS.get() {
            let now = p.t0.elapsed().as_millis() as u64 + 1;
            for (i, s) in p.start.iter().enumerate() {
                let s = s.load(Ordering::SeqCst);
                if s != 0 && now.saturating_sub(s) > limit.as_millis() as u64 {
                    // a shrinking candidate that hangs: the violation itself is already reported
                    std::process::exit(if i == SLOTS - 1 { 1 } else { HANG });
                }
            }
        }
    });
}

fn begin_case(t: usize, i: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(p) = PROGRESS.get() {
        let _ = p.file.write_all_at(&(i + 1).to_le_bytes(), 8 * t as u64);
        p.start[t].store(p.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    }
}

fn end_case(t: usize) {
    if let Some(p) = PROGRESS.get() {
        p.start[t].store(0, Ordering::SeqCst);
    }
}

/// Case indices that were running when a process ended; the flag tells whether it had
/// reported a violation and was shrinking it.
pub fn in_flight(path: &str) -> (Vec<u64>, bool) {
    let b = std::fs::read(path).unwrap_or_default();
    let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let shrinking = v.get(SLOTS - 1).map_or(false, |x| *x != 0);
    let mut c: Vec<u64> = v.iter().take(SLOTS - 1).filter(|x| **x != 0).map(|x| x - 1).collect();
    c.sort();
    (c, shrinking)
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

/// Bound the address space, so that runaway allocation fails here and not in the whole sandbox.
pub fn limit_memory(bytes: u64) {
    const RLIMIT_CORE: i32 = 4;
    const RLIMIT_AS: i32 = 9;
    unsafe {
        setrlimit(RLIMIT_AS, &[bytes, bytes]);
        setrlimit(RLIMIT_CORE, &[0, 0]);
    }
}

/// Ends the process with an error exit (neither success nor violation) if everything else failed
/// to end it.
pub fn watchdog(limit: Duration) {
    std::thread::spawn(move || {
        std::thread::sleep(limit);
        println!("ERROR: watchdog: run exceeded {:?}; inconclusive", limit);
        std::process::exit(3);
    });
}
