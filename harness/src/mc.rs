//! Stateless exhaustive exploration of a choice tree.
//!
//! One execution is one call of a scenario closure. Every source of nondeterminism in it asks
//! `pick` (free enumeration, no cost) or `deviate` (answer 0 is the default environment, every
//! other answer costs one deviation). The explorer enumerates *every* sequence of answers whose
//! total cost is within the bound: it re-runs the closure from scratch, replays a prefix of
//! answers, takes answer 0 afterwards, and schedules each untaken alternative of the new points.
//! Nothing is sampled.

use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
struct Pt {
    chosen: u16,
    arity: u16,
    cost: u8,
    used_before: u8,
}

struct Ctx {
    prefix: Vec<u16>,
    trace: Vec<Pt>,
    used: u8,
    max: u8,
    steps: u64,
    horizon: u64,
    states: HashSet<u64, BuildHasherDefault<IdHasher>>,
    outcomes: HashSet<u64, BuildHasherDefault<IdHasher>>,
    logging: bool,
    log: Vec<String>,
    diverged: Option<String>,
    violation: Option<String>,
    nontrivial: bool,
    nontrivial_count: u64,
    pruned: bool,
    pruned_count: u64,
}

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}

/// FNV-1a with a finaliser, deterministic between runs.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^ (x >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    fn new(max: u8) -> Self {
        Ctx {
            prefix: vec![],
            trace: vec![],
            used: 0,
            max,
            steps: 0,
            horizon: 200_000,
            states: Default::default(),
            outcomes: Default::default(),
            logging: false,
            log: vec![],
            diverged: None,
            violation: None,
            nontrivial: false,
            nontrivial_count: 0,
            pruned: false,
            pruned_count: 0,
        }
    }
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("not inside an execution")))
}

/// Payload of the panics this harness raises itself
pub struct Stop;

fn choose(n: usize, cost: u8) -> usize {
    assert!(n > 0 && n < u16::MAX as usize, "bad arity {n}");
    if n == 1 {
        return 0;
    }
    let r = with(|c| {
        if cost > 0 && c.used.saturating_add(cost) > c.max {
            return Ok(0);
        }
        let i = c.trace.len();
        let v = if i < c.prefix.len() { c.prefix[i] } else { 0 };
        if v as usize >= n {
            let m = format!("replay divergence at point {i}: answer {v} of {n}");
            c.diverged = Some(m);
            return Err(());
        }
        c.trace.push(Pt { chosen: v, arity: n as u16, cost, used_before: c.used });
        if v > 0 {
            c.used += cost;
        }
        Ok(v as usize)
    });
    match r {
        Ok(v) => v,
        Err(()) => std::panic::panic_any(Stop),
    }
}

/// Enumerate `0..n` (cost free)
pub fn pick(n: usize) -> usize {
    choose(n, 0)
}
/// Enumerate a member of a slice (cost free)
pub fn pick_of<T: Copy>(xs: &[T]) -> T {
    xs[pick(xs.len())]
}
/// 0 = default answer; other answers cost one deviation
pub fn deviate(n: usize) -> usize {
    choose(n, 1)
}
/// Number of deviations still available in this execution
pub fn budget() -> u8 {
    with(|c| c.max - c.used)
}
pub fn deviations_used() -> u8 {
    with(|c| c.used)
}
/// Count one transition; ends the execution as a livelock when the horizon is exceeded
pub fn step() {
    let over = with(|c| {
        c.steps += 1;
        c.steps > c.horizon
    });
    if over {
        violation("no termination: step horizon exceeded (livelock)");
    }
}
/// Record the (hashed) state reached
pub fn state(h: u64) {
    with(|c| {
        c.states.insert(h);
    })
}
/// Record the (hashed) observable outcome of the execution
pub fn outcome(h: u64) {
    with(|c| {
        c.outcomes.insert(h);
    })
}
/// Mark the execution as exercising the property (used for the evidence only)
pub fn nontrivial() {
    with(|c| c.nontrivial = true)
}
pub fn logging() -> bool {
    CTX.with(|c| c.borrow().as_ref().is_some_and(|c| c.logging))
}
pub fn log(f: impl FnOnce() -> String) {
    if logging() {
        let s = f();
        with(|c| c.log.push(s));
    }
}
/// The property is broken in this execution
pub fn violation(msg: impl Into<String>) -> ! {
    let msg = msg.into();
    log(|| format!("!! {msg}"));
    with(|c| {
        if c.violation.is_none() {
            c.violation = Some(msg)
        }
    });
    std::panic::panic_any(Stop)
}
/// Like [`violation`], but does not unwind: for use inside callbacks of the code under test
pub fn note_violation(msg: impl Into<String>) {
    let msg = msg.into();
    log(|| format!("!! {msg}"));
    with(|c| {
        if c.violation.is_none() {
            c.violation = Some(msg)
        }
    });
}
/// End this execution: it left the scope of the property being checked (reported as `pruned`)
pub fn prune(msg: impl Into<String>) -> ! {
    let msg = msg.into();
    log(|| format!("-- out of scope: {msg}"));
    with(|c| c.pruned = true);
    std::panic::panic_any(Stop)
}
pub fn has_violation() -> bool {
    with(|c| c.violation.is_some())
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::mc::violation(format!($($a)*)) } };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Stop>().is_some() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let in_exec = CTX.with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(true));
        if !in_exec {
            eprintln!("harness panic: {msg} at {loc}");
        }
        if std::env::var_os("MC_BACKTRACE").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC_MSG.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("panic: {msg} at {loc}"))
            }
        });
    }));
}

enum ExecResult {
    Ok,
    Violation(String),
    Diverged(String),
}

fn run_once(f: &(dyn Fn() + Sync), prefix: Vec<u16>) -> ExecResult {
    with(|c| {
        c.prefix = prefix;
        c.trace.clear();
        c.used = 0;
        c.steps = 0;
        c.violation = None;
        c.diverged = None;
        c.nontrivial = false;
        c.pruned = false;
        c.log.clear();
    });
    PANIC_MSG.with(|p| *p.borrow_mut() = None);
    crate::sched::reset();
    crate::vtime::reset();
    let r = catch_unwind(AssertUnwindSafe(|| {
        f();
    }));
    let ok = r.is_ok();
    crate::arena::reset(ok);
    let pm = PANIC_MSG.with(|p| p.borrow_mut().take());
    with(|c| {
        if c.nontrivial {
            c.nontrivial_count += 1;
        }
        if let Some(d) = c.diverged.take() {
            return ExecResult::Diverged(d);
        }
        if ok && c.trace.len() < c.prefix.len() {
            return ExecResult::Diverged(format!(
                "replay divergence: {} points, prefix {}",
                c.trace.len(),
                c.prefix.len()
            ));
        }
        if let Some(v) = c.violation.take() {
            return ExecResult::Violation(v);
        }
        if c.pruned {
            c.pruned_count += 1;
            return ExecResult::Ok;
        }
        if !ok {
            return ExecResult::Violation(pm.unwrap_or_else(|| "panic".into()));
        }
        ExecResult::Ok
    })
}

#[derive(Clone, Debug)]
pub struct Found {
    pub msg: String,
    pub choices: Vec<u16>,
    pub deviations: u8,
    pub bound: u8,
    pub log: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Report {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub nontrivial: u64,
    pub pruned: u64,
    pub bound: u8,
    pub capped: bool,
    pub found: Option<Found>,
    pub diverged: Option<String>,
    pub max_points: usize,
    pub samples: Vec<String>,
    pub wall: f64,
}

struct Shared {
    stack: Mutex<Vec<Vec<u16>>>,
    cv: Condvar,
    idle: AtomicUsize,
    hungry: AtomicUsize,
    stop: AtomicBool,
    execs: AtomicU64,
}

pub struct Opts {
    pub threads: usize,
    pub time_cap: Duration,
    /// file prefix for "what am I executing" records (crash attribution)
    pub cur: Option<std::path::PathBuf>,
}

fn explore_bound(f: &(dyn Fn() + Sync), bound: u8, o: &Opts, deadline: Instant) -> Report {
    let t0 = Instant::now();
    let sh = Shared {
        stack: Mutex::new(vec![vec![]]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        execs: AtomicU64::new(0),
    };
    let capped = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let diverged: Mutex<Option<String>> = Mutex::new(None);
    let all = Mutex::new((Report::default(), HashSet::<u64, BuildHasherDefault<IdHasher>>::default(), HashSet::<u64, BuildHasherDefault<IdHasher>>::default()));
    let starts: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(0)).collect();
    let current: Vec<Mutex<Vec<u16>>> = (0..o.threads).map(|_| Mutex::new(vec![])).collect();
    let epoch = Instant::now();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for tid in 0..o.threads {
            let (sh, capped, found, diverged, all, starts, current) = (&sh, &capped, &found, &diverged, &all, &starts, &current);
            let nthreads = o.threads;
            let cur = o.cur.as_ref().map(|p| {
                std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(p.with_extension(format!("{tid}"))).expect("cur file")
            });
            hs.push(s.spawn(move || {
                CTX.with(|c| *c.borrow_mut() = Some(Ctx::new(bound)));
                let mut local: Vec<Vec<u16>> = vec![];
                let mut transitions = 0u64;
                let mut execs = 0u64;
                let mut max_points = 0;
                'outer: loop {
                    if sh.stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let prefix = match local.pop() {
                        Some(p) => p,
                        None => {
                            let mut g = sh.stack.lock().unwrap();
                            sh.hungry.fetch_add(1, Ordering::SeqCst);
                            loop {
                                if sh.stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                if !g.is_empty() {
                                    let k = (g.len() / nthreads).clamp(1, 64);
                                    let at = g.len() - k;
                                    local.extend(g.drain(at..));
                                    break;
                                }
                                if sh.idle.fetch_add(1, Ordering::SeqCst) + 1 == nthreads {
                                    sh.stop.store(true, Ordering::SeqCst);
                                    sh.cv.notify_all();
                                    break 'outer;
                                }
                                g = sh.cv.wait(g).unwrap();
                                if sh.stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                sh.idle.fetch_sub(1, Ordering::SeqCst);
                            }
                            sh.hungry.fetch_sub(1, Ordering::SeqCst);
                            drop(g);
                            local.pop().unwrap()
                        }
                    };
                    let plen = prefix.len();
                    if let Some(c) = &cur {
                        use std::os::unix::fs::FileExt;
                        let mut rec = Vec::with_capacity(plen * 2 + 4);
                        rec.extend_from_slice(&(plen as u32).to_le_bytes());
                        for v in &prefix {
                            rec.extend_from_slice(&v.to_le_bytes());
                        }
                        let _ = c.write_at(&rec, 0);
                    }
                    *current[tid].lock().unwrap() = prefix.clone();
                    starts[tid].store(epoch.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    let r = run_once(f, prefix);
                    starts[tid].store(0, Ordering::Relaxed);
                    execs += 1;
                    let ge = sh.execs.fetch_add(1, Ordering::Relaxed);
                    match r {
                        ExecResult::Diverged(d) => {
                            *diverged.lock().unwrap() = Some(d);
                            sh.stop.store(true, Ordering::SeqCst);
                            sh.cv.notify_all();
                            break;
                        }
                        ExecResult::Violation(msg) => {
                            let (choices, deviations) = with(|c| (c.trace.iter().map(|p| p.chosen).collect::<Vec<_>>(), c.used));
                            let mut g = found.lock().unwrap();
                            let better = match &*g {
                                None => true,
                                Some(o) => (deviations, choices.len(), &choices) < (o.deviations, o.choices.len(), &o.choices),
                            };
                            if better {
                                *g = Some(Found { msg, choices, deviations, bound, log: vec![] });
                            }
                            sh.stop.store(true, Ordering::SeqCst);
                            sh.cv.notify_all();
                            break;
                        }
                        ExecResult::Ok => {
                            with(|c| {
                                transitions += c.steps.max(1);
                                max_points = max_points.max(c.trace.len());
                                for i in plen..c.trace.len() {
                                    let p = c.trace[i];
                                    if p.cost > 0 && p.used_before + p.cost > bound {
                                        continue;
                                    }
                                    for alt in 1..p.arity {
                                        let mut ch: Vec<u16> = Vec::with_capacity(i + 1);
                                        ch.extend(c.trace[..i].iter().map(|p| p.chosen));
                                        ch.push(alt);
                                        local.push(ch);
                                    }
                                }
                            });
                            if local.len() > 1 && sh.hungry.load(Ordering::Relaxed) > 0 || local.len() > 4096 {
                                let mut g = sh.stack.lock().unwrap();
                                let k = local.len() / 2;
                                g.extend(local.drain(..k));
                                sh.cv.notify_all();
                            }
                        }
                    }
                    if ge % 64 == 0 && Instant::now() > deadline {
                        capped.store(true, Ordering::SeqCst);
                        sh.stop.store(true, Ordering::SeqCst);
                        sh.cv.notify_all();
                        break;
                    }
                }
                sh.cv.notify_all();
                let c = CTX.with(|c| c.borrow_mut().take().unwrap());
                let mut g = all.lock().unwrap();
                g.0.executions += execs;
                g.0.transitions += transitions;
                g.0.nontrivial += c.nontrivial_count;
                g.0.pruned += c.pruned_count;
                g.0.max_points = g.0.max_points.max(max_points);
                g.1.extend(c.states);
                g.2.extend(c.outcomes);
            }));
        }
        // watchdog: an execution that never returns cannot be unwound
        let (starts, current, done) = (&starts, &current, &done);
        let wd = s.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::park_timeout(Duration::from_millis(250));
                let now = epoch.elapsed().as_millis() as u64;
                for (i, st) in starts.iter().enumerate() {
                    let v = st.load(Ordering::Relaxed);
                    if v != 0 && now.saturating_sub(v) > 120_000 {
                        let ch = current[i].lock().unwrap().clone();
                        crate::on_hang(bound, ch);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
        wd.thread().unpark();
    });
    let (mut rep, st, oc) = all.into_inner().unwrap();
    rep.states = st.len() as u64;
    rep.outcomes = oc.len() as u64;
    rep.bound = bound;
    rep.capped = capped.load(Ordering::SeqCst);
    rep.found = found.into_inner().unwrap();
    rep.diverged = diverged.into_inner().unwrap();
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

/// Re-run one execution with logging; returns (violation message, log, choices)
pub fn replay(f: &(dyn Fn() + Sync), bound: u8, choices: &[u16]) -> (Option<String>, Vec<String>, Option<String>) {
    CTX.with(|c| {
        let mut x = Ctx::new(bound);
        x.logging = true;
        *c.borrow_mut() = Some(x)
    });
    let r = run_once(f, choices.to_vec());
    let c = CTX.with(|c| c.borrow_mut().take().unwrap());
    match r {
        ExecResult::Ok => (None, c.log, None),
        ExecResult::Violation(m) => (Some(m), c.log, None),
        ExecResult::Diverged(d) => (None, c.log, Some(d)),
    }
}

/// Explore everything within `bound` deviations. A violation is minimised to the smallest bound.
pub fn explore(f: &(dyn Fn() + Sync), bound: u8, o: &Opts) -> Report {
    let t0 = Instant::now();
    let deadline = t0 + o.time_cap;
    let mut rep = explore_bound(f, bound, o, deadline);
    if rep.found.is_some() {
        for b in 0..rep.found.as_ref().unwrap().deviations {
            let r2 = explore_bound(f, b, o, Instant::now() + Duration::from_secs(60));
            if r2.found.is_some() {
                rep.found = r2.found;
                break;
            }
        }
        let fnd = rep.found.as_mut().unwrap();
        let (m1, l1, _) = replay(f, fnd.bound, &fnd.choices);
        let (m2, _, _) = replay(f, fnd.bound, &fnd.choices);
        // (a message may quote memory that was never initialised)
        if m1.is_none() || m2.is_none() {
            rep.diverged = Some(format!("violation does not replay: {:?} / {:?} / {:?}", fnd.msg, m1, m2));
        }
        fnd.log = l1;
    } else if rep.diverged.is_none() {
        // determinism check and samples: replay the default execution twice
        let (m1, l1, d1) = replay(f, bound, &[]);
        let (m2, l2, _) = replay(f, bound, &[]);
        if m1 != m2 || l1 != l2 || d1.is_some() {
            rep.diverged = Some(format!("default execution is not deterministic: {m1:?} {m2:?} {d1:?}"));
        }
        rep.samples.push(l1.join("; ").chars().take(1500).collect());
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}
