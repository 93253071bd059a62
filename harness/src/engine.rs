//! Explorers. A scenario is a closed system: an alphabet of operations applied to the real collection
//! and to a reference model in lock step. Three exhaustive strategies enumerate its behaviours:
//!   Bfs   all reachable states, deduplicated by a state key, every operation from every state
//!   Words all operation sequences up to a length, no deduplication
//!   Pump  all operation sequences up to a length, each repeated many times
//! Executions always start from a fresh object and replay the whole history on the real code.
use crate::{alloc, tok};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Flow {
    Go,
    /// The operation is outside the scope of the property in this state.
    Disabled,
}
pub type Step = Result<Flow, String>;
pub type Res = Result<(), String>;

pub trait Scn: Send + Sync {
    type St;
    fn label(&self) -> String;
    fn nops(&self) -> usize;
    fn op_str(&self, op: u16) -> String;
    /// Histories exploration starts from.
    fn roots(&self) -> Vec<Vec<u16>> {
        vec![vec![]]
    }
    fn init(&self) -> Self::St;
    fn step(&self, st: &mut Self::St, op: u16) -> Step;
    /// Everything future behaviour may depend on (soundness of merging is argued in DESIGN.md).
    fn key(&self, st: &Self::St) -> Vec<u64>;
    /// Observation of a state; may destroy it.
    fn check(&self, st: &mut Self::St) -> Res;
    fn end(&self, _st: Self::St) -> Res {
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Mode {
    Bfs { max_states: usize },
    Words { depth: usize },
    Pump { len: usize, reps: usize },
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub job: usize,
    pub label: String,
    pub word: Vec<u16>,
    pub ops: Vec<String>,
    pub msg: String,
    pub confirmed: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub label: String,
    pub mode: String,
    pub states: u64,
    pub transitions: u64,
    pub histories: u64,
    pub steps: u64,
    pub disabled: u64,
    pub outcomes: u64,
    pub max_depth: u64,
    pub exhausted: bool,
    pub cap: String,
    pub divergences: u64,
    pub compared: u64,
    pub wall_s: f64,
    pub samples: Vec<String>,
}

pub trait Job: Send + Sync {
    fn run(&self, id: usize, slot: usize, rt: &Rt) -> (Report, Option<Violation>);
    fn replay(&self, word: &[u16], verbose: bool) -> Res;
    fn label(&self) -> String;
}

// Findings reported by scenarios (recorded by key, decided by the driver).
thread_local! { static LASTPANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
static FINDINGS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn finding(key: String) {
    alloc::untrack(|| {
        let mut f = FINDINGS.lock().unwrap();
        if !f.contains(&key) {
            f.push(key)
        }
    })
}

pub struct Rt {
    pub quick: bool,
    pub job_cap: Duration,
    /// No job starts or goes on after this.
    pub end: Instant,
    stop: AtomicBool,
}

// ---- journal ------------------------------------------------------------------------------------
// One shared-memory slot per worker holds the history being executed, so that the driver can name and
// replay it if the code under test takes the whole process down.
pub const SLOT: usize = 1 << 16;
pub const NSLOTS: usize = 16;
static JBASE: AtomicUsize = AtomicUsize::new(0);
static PROGRESS: [AtomicU64; NSLOTS] = [const { AtomicU64::new(0) }; NSLOTS];
static ACTIVE: [AtomicBool; NSLOTS] = [const { AtomicBool::new(false) }; NSLOTS];
thread_local! { static MYSLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }

#[cfg(not(miri))]
fn journal_open(path: &str) {
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len((SLOT * NSLOTS) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT * NSLOTS, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    JBASE.store(p as usize, SeqCst);
}
fn journal(job: usize, word: &[u16]) {
    let b = JBASE.load(Relaxed);
    let s = MYSLOT.with(|s| s.get());
    if b == 0 || s >= NSLOTS {
        return;
    }
    let n = word.len().min(SLOT / 2 - 8);
    unsafe {
        let p = (b + s * SLOT) as *mut u32;
        p.write_volatile(job as u32 + 1);
        p.add(1).write_volatile(n as u32);
        std::ptr::copy_nonoverlapping(word.as_ptr(), p.add(2) as *mut u16, n);
    }
}
fn journal_clear() {
    let b = JBASE.load(Relaxed);
    let s = MYSLOT.with(|s| s.get());
    if b != 0 && s < NSLOTS {
        unsafe { ((b + s * SLOT) as *mut u32).write_volatile(0) }
    }
}
thread_local! { static OBS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// Counts one comparison of the implementation with the expectation.
#[inline]
pub fn obs() {
    OBS.with(|o| o.set(o.get() + 1));
}
pub fn tick() {
    let s = MYSLOT.with(|s| s.get());
    if s < NSLOTS {
        PROGRESS[s].fetch_add(1, Relaxed);
    }
}

// ---- executing one history ----------------------------------------------------------------------
pub struct Ran {
    pub key: Vec<u64>,
    pub disabled: Option<usize>,
    pub pre: Vec<u64>,
}
fn polled() -> Res {
    if let Some(e) = tok::error() {
        return Err(e);
    }
    if let Some(e) = alloc::error() {
        return Err(e);
    }
    Ok(())
}

/// Runs a history from scratch. `each`: observe the state after every step, else only after the last.
/// `prekey`: also report the key before the last step.
fn run_word<S: Scn>(scn: &S, word: &[u16], each: usize, prekey: bool) -> Result<Ran, (usize, String)> {
    let at = std::cell::Cell::new(0usize);
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Ran, String> {
        tok::reset();
        alloc::reset();
        let mut st = std::mem::ManuallyDrop::new(scn.init());
        let mut pre = vec![];
        for (i, &op) in word.iter().enumerate() {
            at.set(i);
            if prekey && i + 1 == word.len() {
                pre = scn.key(&st);
            }
            tick();
            match scn.step(&mut st, op)? {
                Flow::Go => {}
                Flow::Disabled => {
                    let st = std::mem::ManuallyDrop::into_inner(st);
                    drop(st);
                    return Ok(Ran { key: vec![], disabled: Some(i), pre });
                }
            }
            if each > 0 && (i + 1) % each == 0 && i + 1 < word.len() {
                scn.check(&mut st)?;
                polled()?;
            }
        }
        polled()?;
        let key = scn.key(&st);
        scn.check(&mut st)?;
        polled()?;
        scn.end(std::mem::ManuallyDrop::into_inner(st))?;
        polled()?;
        Ok(Ran { key, disabled: None, pre })
    }));
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(m)) => Err((at.get(), m)),
        Err(p) => {
            let m = LASTPANIC.with(|l| l.borrow().clone());
            let what = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            Err((at.get(), format!("unexpected panic: {} {}", what, m)))
        }
    }
}

pub struct Explore<S: Scn> {
    pub scn: S,
    pub mode: Mode,
}
fn h64(k: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in k {
        h = (h ^ x).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

impl<S: Scn> Explore<S> {
    fn show(&self, word: &[u16]) -> Vec<String> {
        let mut v: Vec<String> = word.iter().take(400).map(|&o| self.scn.op_str(o)).collect();
        if word.len() > 400 {
            v.push(format!("... {} operations in total", word.len()));
        }
        v
    }
    fn viol(&self, id: usize, word: &[u16], at: usize, msg: String, each: usize) -> Violation {
        let word = word[..(at + 1).min(word.len())].to_vec();
        let again = run_word(&self.scn, &word, each, false).is_err();
        Violation { job: id, label: self.scn.label(), ops: self.show(&word), word, msg, confirmed: again }
    }
}

impl<S: Scn> Job for Explore<S> {
    fn label(&self) -> String {
        self.scn.label()
    }
    fn replay(&self, word: &[u16], verbose: bool) -> Res {
        if verbose {
            for o in self.show(word) {
                println!("    {}", o);
            }
        }
        let each = match self.mode {
            Mode::Pump { .. } => 1,
            _ => 0,
        };
        journal(0, word);
        run_word(&self.scn, word, each, false).map(|_| ()).map_err(|(i, m)| format!("at step {}: {}", i + 1, m))
    }
    fn run(&self, id: usize, slot: usize, rt: &Rt) -> (Report, Option<Violation>) {
        MYSLOT.with(|s| s.set(slot));
        let t0 = Instant::now();
        let obs0 = OBS.with(|o| o.get());
        let scn = &self.scn;
        let nops = scn.nops() as u16;
        let mut rep = Report { label: scn.label(), mode: format!("{:?}", self.mode), exhausted: true, ..Default::default() };
        let mut out: HashSet<u64> = HashSet::new();
        let mut viol = None;
        let roots = scn.roots();
        macro_rules! capped {
            () => {
                if rt.stop.load(Relaxed) {
                    rep.exhausted = false;
                    rep.cap = "stopped after a violation elsewhere".into();
                    true
                } else if t0.elapsed() > rt.job_cap || Instant::now() > rt.end {
                    rep.exhausted = false;
                    rep.cap = format!("time cap after {} s", t0.elapsed().as_secs());
                    true
                } else {
                    false
                }
            };
        }
        match self.mode {
            Mode::Bfs { max_states } => {
                let mut seen: HashMap<Vec<u64>, u32> = HashMap::new();
                let mut frontier: Vec<Vec<u16>> = vec![];
                'all: {
                    for r in &roots {
                        journal(id, r);
                        rep.histories += 1;
                        rep.steps += r.len() as u64;
                        match run_word(scn, r, 0, false) {
                            Err((at, m)) => {
                                viol = Some(self.viol(id, r, at, m, 0));
                                break 'all;
                            }
                            Ok(x) if x.disabled.is_none() => {
                                let n = seen.len() as u32;
                                if let std::collections::hash_map::Entry::Vacant(e) = seen.entry(x.key) {
                                    e.insert(n);
                                    frontier.push(r.clone());
                                }
                            }
                            Ok(_) => rep.disabled += 1,
                        }
                    }
                    let mut i = 0;
                    while i < frontier.len() {
                        if capped!() {
                            break;
                        }
                        let mut w = frontier[i].clone();
                        let base = w.len();
                        rep.max_depth = rep.max_depth.max(base as u64);
                        for op in 0..nops {
                            w.truncate(base);
                            w.push(op);
                            journal(id, &w);
                            rep.histories += 1;
                            rep.steps += w.len() as u64;
                            match run_word(scn, &w, 0, op == 0) {
                                Err((at, m)) => {
                                    viol = Some(self.viol(id, &w, at, m, 0));
                                    break 'all;
                                }
                                Ok(x) => {
                                    if op == 0 && base > 0 && seen.get(&x.pre) != Some(&(i as u32)) {
                                        rep.divergences += 1;
                                    }
                                    if x.disabled.is_some() {
                                        rep.disabled += 1;
                                        continue;
                                    }
                                    rep.transitions += 1;
                                    let n = seen.len();
                                    if let std::collections::hash_map::Entry::Vacant(e) = seen.entry(x.key) {
                                        if n >= max_states {
                                            rep.exhausted = false;
                                            rep.cap = format!("state cap {}", max_states);
                                        } else {
                                            e.insert(n as u32);
                                            frontier.push(w.clone());
                                        }
                                    }
                                }
                            }
                        }
                        i += 1;
                    }
                }
                rep.states = seen.len() as u64;
                rep.outcomes = seen.len() as u64;
                for k in [frontier.len() / 2, frontier.len().saturating_sub(1)] {
                    if let Some(w) = frontier.get(k) {
                        rep.samples.push(self.show(w).join("; "));
                    }
                }
            }
            Mode::Words { depth } => {
                'all2: for r in &roots {
                    // depth-first over all words; a disabled operation cuts its subtree
                    let mut stack: Vec<Vec<u16>> = vec![r.clone()];
                    while let Some(w) = stack.pop() {
                        if rep.histories % 1024 == 0 && capped!() {
                            break 'all2;
                        }
                        journal(id, &w);
                        rep.histories += 1;
                        rep.steps += w.len() as u64;
                        match run_word(scn, &w, 0, false) {
                            Err((at, m)) => {
                                viol = Some(self.viol(id, &w, at, m, 0));
                                break 'all2;
                            }
                            Ok(x) => {
                                if x.disabled.is_some() {
                                    rep.disabled += 1;
                                    continue;
                                }
                                rep.states += 1;
                                rep.max_depth = rep.max_depth.max(w.len() as u64);
                                if w.len() > r.len() || r.len() > 0 {
                                    rep.transitions += 1;
                                }
                                out.insert(h64(&x.key));
                                if rep.states & (rep.states - 1) == 0 && rep.samples.len() < 14 {
                                    rep.samples.push(self.show(&w).join("; "));
                                }
                                if w.len() - r.len() < depth {
                                    for op in (0..nops).rev() {
                                        let mut x = w.clone();
                                        x.push(op);
                                        stack.push(x);
                                    }
                                }
                            }
                        }
                    }
                }
                rep.outcomes = out.len() as u64;
                let keep = rep.samples.len().saturating_sub(2);
                rep.samples.drain(..keep);
            }
            Mode::Pump { len, reps } => {
                'all3: for r in &roots {
                    let mut idx: Vec<u16> = vec![0];
                    loop {
                        // `idx` is the next word in length-then-lexicographic order
                        if capped!() {
                            break 'all3;
                        }
                        let mut w = r.clone();
                        for _ in 0..reps {
                            w.extend_from_slice(&idx);
                        }
                        journal(id, &w);
                        rep.histories += 1;
                        match run_word(scn, &w, idx.len() * (reps / 64).max(1), false) {
                            Err((at, m)) => {
                                // shortest failing prefix with observation after every step
                                let mut v = self.viol(id, &w, at, m, idx.len());
                                if !v.confirmed {
                                    v.confirmed = run_word(scn, &w, idx.len() * (reps / 64).max(1), false).is_err();
                                }
                                viol = Some(v);
                                break 'all3;
                            }
                            Ok(x) => {
                                if x.disabled.is_some() {
                                    rep.disabled += 1;
                                } else {
                                    rep.states += w.len() as u64;
                                    rep.transitions += w.len() as u64;
                                    rep.steps += w.len() as u64;
                                    rep.max_depth = rep.max_depth.max(w.len() as u64);
                                    out.insert(h64(&x.key));
                                    if rep.samples.len() < 2 {
                                        rep.samples.push(format!("({})^{}", self.show(&idx).join("; "), reps));
                                    }
                                }
                            }
                        }
                        let mut i = idx.len();
                        loop {
                            if i == 0 {
                                idx = vec![0; idx.len() + 1];
                                break;
                            }
                            i -= 1;
                            idx[i] += 1;
                            if idx[i] < nops {
                                break;
                            }
                            idx[i] = 0;
                        }
                        if idx.len() > len {
                            break;
                        }
                    }
                }
                rep.outcomes = out.len() as u64;
            }
        }
        journal_clear();
        rep.compared = OBS.with(|o| o.get()) - obs0;
        rep.wall_s = t0.elapsed().as_secs_f64();
        (rep, viol)
    }
}

/// A plain enumeration: `n` independent cases.
pub struct Cases<F: Fn(usize) -> Res + Send + Sync, D: Fn(usize) -> String + Send + Sync> {
    pub name: String,
    pub n: usize,
    pub f: F,
    pub d: D,
}
impl<F: Fn(usize) -> Res + Send + Sync, D: Fn(usize) -> String + Send + Sync> Scn for Cases<F, D> {
    type St = ();
    fn label(&self) -> String {
        self.name.clone()
    }
    fn nops(&self) -> usize {
        0
    }
    fn op_str(&self, o: u16) -> String {
        o.to_string()
    }
    fn init(&self) {}
    fn step(&self, _: &mut (), _: u16) -> Step {
        Ok(Flow::Go)
    }
    fn key(&self, _: &()) -> Vec<u64> {
        vec![]
    }
    fn check(&self, _: &mut ()) -> Res {
        Ok(())
    }
}
pub struct CaseJob<F: Fn(usize) -> Res + Send + Sync, D: Fn(usize) -> String + Send + Sync>(pub Cases<F, D>);
impl<F: Fn(usize) -> Res + Send + Sync, D: Fn(usize) -> String + Send + Sync> CaseJob<F, D> {
    fn one(&self, i: usize) -> Res {
        let r = catch_unwind(AssertUnwindSafe(|| {
            tok::reset();
            alloc::reset();
            (self.0.f)(i)?;
            polled()
        }));
        match r {
            Ok(r) => r,
            Err(_) => Err(format!("unexpected panic: {}", LASTPANIC.with(|l| l.borrow().clone()))),
        }
    }
}
impl<F: Fn(usize) -> Res + Send + Sync, D: Fn(usize) -> String + Send + Sync> Job for CaseJob<F, D> {
    fn label(&self) -> String {
        self.0.name.clone()
    }
    fn replay(&self, word: &[u16], verbose: bool) -> Res {
        let i = ((word[0] as usize) << 16) | word[1] as usize;
        if verbose {
            println!("    {}", (self.0.d)(i));
        }
        self.one(i)
    }
    fn run(&self, id: usize, slot: usize, rt: &Rt) -> (Report, Option<Violation>) {
        MYSLOT.with(|s| s.set(slot));
        let t0 = Instant::now();
        let obs0 = OBS.with(|o| o.get());
        let mut rep = Report { label: self.label(), mode: "Cases".into(), exhausted: true, ..Default::default() };
        let mut viol = None;
        for i in 0..self.0.n {
            if i % 256 == 0 && (rt.stop.load(Relaxed) || t0.elapsed() > rt.job_cap || Instant::now() > rt.end) {
                rep.exhausted = false;
                rep.cap = "time cap or stop".into();
                break;
            }
            let w = [(i >> 16) as u16, i as u16];
            journal(id, &w);
            tick();
            rep.histories += 1;
            rep.states += 1;
            if let Err(msg) = self.one(i) {
                let again = self.one(i).is_err();
                viol = Some(Violation { job: id, label: self.label(), word: w.to_vec(), ops: vec![(self.0.d)(i)], msg, confirmed: again });
                break;
            }
        }
        for i in [self.0.n / 3, self.0.n.saturating_sub(1)] {
            if i < self.0.n {
                rep.samples.push((self.0.d)(i));
            }
        }
        rep.outcomes = rep.states;
        // a case is one state, the comparisons made on it are its transitions
        rep.transitions = OBS.with(|o| o.get()) - obs0;
        rep.steps = rep.transitions;
        journal_clear();
        rep.compared = OBS.with(|o| o.get()) - obs0;
        rep.wall_s = t0.elapsed().as_secs_f64();
        (rep, viol)
    }
}
pub fn cases(name: impl Into<String>, n: usize, d: impl Fn(usize) -> String + Send + Sync + 'static, f: impl Fn(usize) -> Res + Send + Sync + 'static) -> Box<dyn Job> {
    Box::new(CaseJob(Cases { name: name.into(), n, f, d }))
}
pub fn explore<S: Scn + 'static>(scn: S, mode: Mode) -> Box<dyn Job> {
    Box::new(Explore { scn, mode })
}

// ---- main ---------------------------------------------------------------------------------------
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

pub fn expect_panic<R>(f: impl FnOnce() -> R) -> Result<(), R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Err(r),
        Err(_) => Ok(()),
    }
}

/// `<bin> run PROP TIER OUT.json JOURNAL [STALL_S]` / `<bin> replay PROP TIER JOB op,op,...`
pub fn main_with(jobs: impl Fn(&str, bool) -> Vec<Box<dyn Job>>) -> ! {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LASTPANIC.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = s
            }
        });
    }));
    let a: Vec<String> = std::env::args().collect();
    let quick = a.get(3).map(|s| s == "quick").unwrap_or(true);
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let jobs = jobs(&a[2], quick);
            assert!(!jobs.is_empty(), "no jobs for {}", a[2]);
            run_all(jobs, quick, &a[4], &a[5], a.get(6).map(|s| s.parse().unwrap()).unwrap_or(30))
        }
        Some("replay") => {
            let jobs = jobs(&a[2], quick);
            let word: Vec<u16> = a[5].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let j = &jobs[a[4].parse::<usize>().unwrap()];
            println!("  scenario: {}", j.label());
            match j.replay(&word, true) {
                Ok(()) => {
                    println!("  not reproduced");
                    std::process::exit(0)
                }
                Err(m) => {
                    println!("  reproduced: {}", m);
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: run PROP TIER OUT JOURNAL | replay PROP TIER JOB OPS");
            std::process::exit(2)
        }
    }
}

#[cfg(miri)]
fn run_all(_: Vec<Box<dyn Job>>, _: bool, _: &str, _: &str, _: u64) -> ! {
    unreachable!()
}
#[cfg(not(miri))]
fn run_all(jobs: Vec<Box<dyn Job>>, quick: bool, out: &str, jpath: &str, stall: u64) -> ! {
    journal_open(jpath);
    let t0 = Instant::now();
    let cap = std::env::var("MC_JOB_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 45 } else { 1500 });
    let total = std::env::var("MC_TOTAL_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 200 } else { 3000 });
    let rt = Rt { quick, job_cap: Duration::from_secs(cap), end: t0 + Duration::from_secs(total), stop: AtomicBool::new(false) };
    // "k/n": every n-th job, from the k-th
    let (part, of) = std::env::var("MC_SHARD").ok().and_then(|s| s.split_once('/').map(|(k, n)| (k.parse().unwrap(), n.parse().unwrap()))).unwrap_or((0, 1));
    let next = AtomicUsize::new(0);
    let reps: Mutex<Vec<(usize, Report)>> = Mutex::new(vec![]);
    let viols: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)).min(jobs.len());
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers)
            .map(|slot| {
                let (next, jobs, rt, reps, viols) = (&next, &jobs, &rt, &reps, &viols);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= jobs.len() || rt.stop.load(SeqCst) {
                            break;
                        }
                        if i % of != part {
                            continue;
                        }
                        ACTIVE[slot].store(true, SeqCst);
                        let (r, v) = jobs[i].run(i, slot, rt);
                        ACTIVE[slot].store(false, SeqCst);
                        reps.lock().unwrap().push((i, r));
                        if let Some(v) = v {
                            viols.lock().unwrap().push(v);
                            rt.stop.store(true, SeqCst);
                        }
                    })
                    .unwrap()
            })
            .collect();
        let done = &done;
        s.spawn(move || {
            let mut last = [(0u64, Instant::now()); NSLOTS];
            for l in last.iter_mut() {
                l.1 = Instant::now();
            }
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                for k in 0..NSLOTS {
                    let p = PROGRESS[k].load(Relaxed);
                    if !ACTIVE[k].load(Relaxed) || p != last[k].0 {
                        last[k] = (p, Instant::now());
                    } else if last[k].1.elapsed() > Duration::from_secs(stall) {
                        eprintln!("mc: slot {} makes no progress", k);
                        std::process::exit(97);
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, SeqCst);
    });
    let mut reps = reps.into_inner().unwrap();
    reps.sort_by_key(|r| r.0);
    let mut viols = viols.into_inner().unwrap();
    viols.sort_by_key(|v| v.job);
    let mut o = String::from("{\"jobs\":[");
    for (k, (i, r)) in reps.iter().enumerate() {
        let _ = write!(
            o,
            "{}{{\"job\":{},\"label\":{},\"mode\":{},\"states\":{},\"transitions\":{},\"histories\":{},\"steps\":{},\"disabled\":{},\"outcomes\":{},\"max_depth\":{},\"exhausted\":{},\"cap\":{},\"divergences\":{},\"compared\":{},\"wall_s\":{:.3},\"samples\":{}}}",
            if k > 0 { "," } else { "" }, i, js(&r.label), js(&r.mode), r.states, r.transitions, r.histories, r.steps, r.disabled, r.outcomes, r.max_depth, r.exhausted, js(&r.cap), r.divergences, r.compared, r.wall_s, jl(&r.samples)
        );
    }
    let _ = write!(o, "],\"findings\":{},\"wall_s\":{:.3},\"violation\":", jl(&FINDINGS.lock().unwrap()), t0.elapsed().as_secs_f64());
    match viols.first() {
        None => o += "null}",
        Some(v) => {
            let _ = write!(
                o,
                "{{\"job\":{},\"label\":{},\"word\":[{}],\"ops\":{},\"msg\":{},\"confirmed\":{}}}}}",
                v.job, js(&v.label), v.word.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), jl(&v.ops), js(&v.msg), v.confirmed
            );
        }
    }
    std::fs::write(out, o).unwrap();
    std::process::exit(if viols.is_empty() { 0 } else { 1 })
}
