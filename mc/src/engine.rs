//! Exhaustive exploration of nondeterministic scenarios on the real code.
//!
//! A scenario is a closure that asks its context for every decision (`choose`, `pick`,
//! `deviate`). The explorer runs it for *every* possible sequence of answers: depth first,
//! by incrementing the last choice that can still be incremented (no sampling, no
//! randomness). `deviate` answers 0 for free; any other answer uses up one unit of the
//! scenario's deviation budget, and all ways of spending at most that budget are explored.
//!
//! A `Machine` is explored by explicit-state breadth-first search instead: states are
//! deduplicated by a canonical key and every operation enabled in every reached state is
//! executed.

use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

// ---------------------------------------------------------------- journal

/// What each worker is executing right now, in memory shared with the supervising process,
/// so that an execution that kills the process or never ends can be named.
pub const SLOT_WORDS: usize = 1024;
pub const SLOTS: usize = 64;
const HDR: usize = 4; // [start_ms_lo, start_ms_hi, scenario, len]

pub struct Journal {
    ptr: *mut u32,
}
unsafe impl Send for Journal {}
unsafe impl Sync for Journal {}

unsafe extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

pub fn limit_memory(bytes: u64) {
    const RLIMIT_AS: i32 = 9;
    let lim = [bytes, bytes];
    unsafe {
        setrlimit(RLIMIT_AS, &lim);
    }
}

pub fn no_core_dumps() {
    const RLIMIT_CORE: i32 = 4;
    let lim = [0u64, 0];
    unsafe {
        setrlimit(RLIMIT_CORE, &lim);
    }
}

impl Journal {
    pub const BYTES: usize = SLOTS * SLOT_WORDS * 4;

    pub fn in_memory() -> Journal {
        let v = vec![0u32; SLOTS * SLOT_WORDS].into_boxed_slice();
        Journal {
            ptr: Box::leak(v).as_mut_ptr(),
        }
    }

    pub fn map(path: &str) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("journal");
        f.set_len(Self::BYTES as u64).expect("journal size");
        let p = unsafe { mmap(std::ptr::null_mut(), Self::BYTES, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap failed");
        Journal { ptr: p as *mut u32 }
    }

    fn slot(&self, w: usize) -> *mut u32 {
        unsafe { self.ptr.add((w % SLOTS) * SLOT_WORDS) }
    }

    fn begin(&self, w: usize, scenario: usize, now_ms: u64) {
        let s = self.slot(w);
        unsafe {
            s.write_volatile(0);
            s.add(1).write_volatile(0);
            s.add(2).write_volatile(scenario as u32);
            s.add(3).write_volatile(0);
            s.add(1).write_volatile((now_ms >> 32) as u32);
            s.write_volatile(now_ms as u32);
        }
    }

    fn push(&self, w: usize, pos: usize, choice: u32) {
        if pos + HDR < SLOT_WORDS {
            let s = self.slot(w);
            unsafe {
                s.add(HDR + pos).write_volatile(choice);
                s.add(3).write_volatile(pos as u32 + 1);
            }
        }
    }

    fn end(&self, w: usize) {
        let s = self.slot(w);
        unsafe {
            s.write_volatile(0);
            s.add(1).write_volatile(0);
        }
    }

    /// (start_ms, scenario, choices) of a running execution
    pub fn read(&self, w: usize) -> Option<(u64, usize, Vec<u32>)> {
        let s = self.slot(w);
        unsafe {
            let start = s.read_volatile() as u64 | ((s.add(1).read_volatile() as u64) << 32);
            if start == 0 {
                return None;
            }
            let sc = s.add(2).read_volatile() as usize;
            let len = (s.add(3).read_volatile() as usize).min(SLOT_WORDS - HDR);
            Some((start, sc, (0..len).map(|i| s.add(HDR + i).read_volatile()).collect()))
        }
    }
}

// ---------------------------------------------------------------- context

const MAX_OUTCOMES: usize = 2_000_000;

pub struct Ctx<'a> {
    choices: Vec<u32>,
    arities: Vec<u32>,
    planned: usize,
    pos: usize,
    devs: u32,
    max_devs: u32,
    lenient: bool,
    diverged: bool,
    pub calls: u64,
    outcomes: HashSet<u64>,
    want_sample: bool,
    sample: Option<String>,
    journal: &'a Journal,
    worker: usize,
    in_call: bool,
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = loc);
    }));
}

fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    };
    let at = PANIC_AT.with(|p| p.borrow().clone());
    format!("{m} (at {at})")
}

/// Runs real code, turning a panic into an observation.
pub fn observe<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(payload)
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl<'a> Ctx<'a> {
    fn new(journal: &'a Journal, worker: usize, max_devs: u32) -> Self {
        Ctx {
            choices: Vec::new(),
            arities: Vec::new(),
            planned: 0,
            pos: 0,
            devs: 0,
            max_devs,
            lenient: false,
            diverged: false,
            calls: 0,
            outcomes: HashSet::new(),
            want_sample: false,
            sample: None,
            journal,
            worker,
            in_call: false,
        }
    }

    /// One of `n` alternatives; all of them are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if n == 1 {
            return 0;
        }
        let p = self.pos;
        let c = if p < self.planned {
            let c = self.choices[p];
            if c as usize >= n {
                if self.lenient {
                    self.diverged = true;
                    self.choices[p] = 0;
                    0
                } else {
                    panic!("replay divergence: choice {c} of {n} at {p}");
                }
            } else {
                c
            }
        } else {
            self.choices.truncate(p);
            self.choices.push(0);
            0
        };
        if p < self.arities.len() {
            if self.arities[p] != n as u32 && !self.lenient {
                panic!("nondeterministic scenario: arity {} became {n} at {p}", self.arities[p]);
            }
            self.arities[p] = n as u32;
        } else {
            self.arities.push(n as u32);
        }
        self.journal.push(self.worker, p, c);
        self.pos += 1;
        c as usize
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        let i = self.choose(items.len());
        &items[i]
    }

    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.choose(hi_incl - lo + 1)
    }

    /// 0 is the default answer; 1..n are deviations and cost one unit of the budget.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.devs >= self.max_devs {
            return 0;
        }
        let c = self.choose(n);
        if c > 0 {
            self.devs += 1;
        }
        c
    }

    /// Executes real code: one transition.
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.calls += 1;
        self.in_call = true;
        let r = observe(f);
        self.in_call = false;
        r
    }

    /// Real code that has to return.
    pub fn must<T>(&mut self, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
        self.call(f).map_err(|p| format!("{} panicked: {p}", what()))
    }

    /// Real code that has to refuse (panic).
    pub fn refuses<T: std::fmt::Debug>(&mut self, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> R {
        match self.call(f) {
            Err(_) => Ok(()),
            Ok(v) => {
                let s: String = format!("{v:?}").chars().take(200).collect();
                Err(format!("{} was not refused, it returned {s}", what()))
            }
        }
    }

    /// Records an outcome, to show that the exploration is not vacuous.
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < MAX_OUTCOMES {
            self.outcomes.insert(h64(t));
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let mut s = f();
            if s.len() > 400 {
                let mut cut = 400;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.sample = Some(s);
            self.want_sample = false;
        }
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(got: &T, want: &T, what: impl FnOnce() -> String) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {got:?}, expected {want:?}", what()))
    }
}

pub fn eq_bytes(got: &[u8], want: &[u8], what: impl FnOnce() -> String) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {}, expected {}", what(), hx(got), hx(want)))
    }
}

pub fn hx(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{x:02x}")).collect();
    if b.len() > 200 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

// ---------------------------------------------------------------- scenarios

type Body = Box<dyn Fn(&mut Ctx) -> R + Send + Sync>;

pub trait Machine: Send + Sync {
    type S: Clone + Send + Sync;
    fn initials(&self) -> Vec<Self::S>;
    fn ops(&self) -> usize;
    /// None: the operation is not enabled here
    fn step(&self, s: &Self::S, op: usize, calls: &mut u64) -> Option<Result<Self::S, String>>;
    fn key(&self, s: &Self::S) -> Vec<u8>;
    fn describe(&self, s: &Self::S, op: usize) -> String;
}

trait DynMachine: Send + Sync {
    fn search(&self, idx: usize, env: &Env, depth: usize) -> Stats;
    fn replay(&self, choices: &[u32]) -> R;
}

struct Wrapped<M: Machine>(M);

pub enum Kind {
    Body(Body),
    Machine(Box<dyn MachineObj>, usize),
}

pub trait MachineObj: Send + Sync {
    fn search_obj(&self, idx: usize, env: &Env, depth: usize) -> Stats;
    fn replay_obj(&self, choices: &[u32]) -> R;
}
impl<T: DynMachine> MachineObj for T {
    fn search_obj(&self, idx: usize, env: &Env, depth: usize) -> Stats {
        self.search(idx, env, depth)
    }
    fn replay_obj(&self, choices: &[u32]) -> R {
        self.replay(choices)
    }
}

pub struct Scenario {
    pub name: String,
    pub bounds: String,
    pub devs: u32,
    pub kind: Kind,
    /// how long one execution may take before it counts as not terminating
    pub limit_s: u64,
    pub threads: usize,
    /// explored in the build with debug checks only
    pub once: bool,
    /// explored in the build with scheduling points, and only there
    pub sched: bool,
}

pub fn scenario(
    name: impl Into<String>,
    bounds: impl Into<String>,
    body: impl Fn(&mut Ctx) -> R + Send + Sync + 'static,
) -> Scenario {
    Scenario {
        name: name.into(),
        bounds: bounds.into(),
        devs: 0,
        kind: Kind::Body(Box::new(body)),
        limit_s: 120,
        threads: 0,
        once: false,
        sched: false,
    }
}

pub fn machine<M: Machine + 'static>(name: impl Into<String>, bounds: impl Into<String>, m: M, depth: usize) -> Scenario {
    Scenario {
        name: name.into(),
        bounds: bounds.into(),
        devs: 0,
        kind: Kind::Machine(Box::new(Wrapped(m)), depth),
        limit_s: 120,
        threads: 0,
        once: false,
        sched: false,
    }
}

impl Scenario {
    pub fn devs(mut self, d: u32) -> Self {
        self.devs = d;
        self
    }
    pub fn limit(mut self, s: u64) -> Self {
        self.limit_s = s;
        self
    }
    pub fn once(mut self) -> Self {
        self.once = true;
        self
    }
    pub fn sched(mut self) -> Self {
        self.sched = true;
        self
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: u64,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
    pub complete: bool,
    pub wall_s: f64,
    pub max_depth: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub choices: Vec<u32>,
    pub message: String,
    pub reproduced: bool,
}

pub struct Env {
    pub journal: Journal,
    pub threads: usize,
    pub epoch: Instant,
    pub deadline: Option<Instant>,
    pub engine_error: Mutex<Option<String>>,
}

impl Env {
    pub fn new(journal: Journal, deadline: Option<Duration>) -> Env {
        let now = Instant::now();
        Env {
            journal,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(32),
            epoch: now,
            deadline: deadline.map(|d| now + d),
            engine_error: Mutex::new(None),
        }
    }
    pub fn now_ms(&self) -> u64 {
        self.epoch.elapsed().as_millis() as u64 + 1
    }
    fn expired(&self) -> bool {
        self.deadline.is_some_and(|d| Instant::now() > d)
    }
}

enum Ran {
    Ok,
    Violated(String),
}

fn run_once(body: &Body, ctx: &mut Ctx, env: &Env, idx: usize) -> Result<Ran, String> {
    ctx.pos = 0;
    ctx.devs = 0;
    ctx.diverged = false;
    env.journal.begin(ctx.worker, idx, env.now_ms());
    let r = catch_unwind(AssertUnwindSafe(|| body(ctx)));
    env.journal.end(ctx.worker);
    let pos = ctx.pos;
    ctx.choices.truncate(pos);
    ctx.arities.truncate(pos);
    match r {
        Ok(Ok(())) => Ok(Ran::Ok),
        Ok(Err(m)) => Ok(Ran::Violated(m)),
        Err(e) => classify(payload(e)),
    }
}

/// A panic that reached the explorer: the code under test panicked where the scenario did
/// not expect it to (a violation), or the harness itself is wrong (an engine error).
fn classify(panic: String) -> Result<Ran, String> {
    let at = PANIC_AT.with(|p| p.borrow().clone());
    if at.starts_with("/repo/") || at.contains("/registry/") {
        Ok(Ran::Violated(format!("unexpected panic: {panic}")))
    } else {
        Err(format!("harness panicked: {panic}"))
    }
}

fn explore_body(sc: &Scenario, body: &Body, idx: usize, env: &Env) -> Stats {
    let t0 = Instant::now();
    let threads = if sc.threads > 0 { sc.threads } else { env.threads };

    // Split the choice tree into enough independent subtrees.
    let mut interior = 0u64;
    let mut items: Vec<Vec<u32>> = Vec::new();
    let mut violation: Option<Violation> = None;
    {
        let mut frontier: std::collections::VecDeque<Vec<u32>> = [vec![]].into();
        let target = threads * 64;
        let mut ctx = Ctx::new(&env.journal, 0, sc.devs);
        let mut probes = 0;
        while frontier.len() + items.len() < target && !frontier.is_empty() && probes < 4 * target {
            if sc.threads == 1 {
                break;
            }
            let p = frontier.pop_front().unwrap();
            ctx.choices = p.clone();
            ctx.arities.clear();
            ctx.planned = p.len();
            probes += 1;
            if probes > 1 && t0.elapsed() > Duration::from_millis(1500) {
                // executions are expensive: what has been split already must do
                frontier.push_front(p);
                break;
            }
            match run_once(body, &mut ctx, env, idx) {
                Err(e) => {
                    *env.engine_error.lock().unwrap() = Some(format!("{}: {e}", sc.name));
                    break;
                }
                Ok(Ran::Violated(m)) => {
                    violation = Some(Violation {
                        scenario: sc.name.clone(),
                        choices: ctx.choices.clone(),
                        message: m,
                        reproduced: false,
                    });
                    break;
                }
                Ok(Ran::Ok) => {}
            }
            if ctx.arities.len() <= p.len() {
                items.push(p); // a complete execution
            } else {
                interior += 1;
                for c in 0..ctx.arities[p.len()] {
                    let mut q = p.clone();
                    q.push(c);
                    frontier.push_back(q);
                }
            }
        }
        items.extend(frontier);
    }

    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(violation.is_some() || env.engine_error.lock().unwrap().is_some());
    let complete = AtomicBool::new(true);
    let total = Mutex::new(Stats { states: interior, ..Default::default() });
    let all_outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let found: Mutex<Option<Violation>> = Mutex::new(violation);
    let sample_quota = AtomicU64::new(4);

    std::thread::scope(|scope| {
        for w in 0..threads {
            let items = &items;
            let (next, stop, complete, total, all_outcomes, found, sample_quota) =
                (&next, &stop, &complete, &total, &all_outcomes, &found, &sample_quota);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    let mut ctx = Ctx::new(&env.journal, w + 1, sc.devs);
                    let mut st = Stats::default();
                    let mut n = 0u64;
                    'items: loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let Some(prefix) = items.get(i) else { break };
                        let base = prefix.len();
                        ctx.choices = prefix.clone();
                        ctx.arities.clear();
                        ctx.planned = base;
                        let mut changed_at = base;
                        st.states += 1; // the subtree's root
                        loop {
                            n += 1;
                            if (i % 61 == 0 || i + 1 == items.len()) && sample_quota.load(Ordering::Relaxed) > 0 {
                                ctx.want_sample = true;
                            }
                            let r = run_once(body, &mut ctx, env, idx);
                            ctx.want_sample = false;
                            if let Some(s) = ctx.sample.take() {
                                if sample_quota
                                    .try_update(Ordering::Relaxed, Ordering::Relaxed, |q| q.checked_sub(1))
                                    .is_ok()
                                {
                                    st.samples.push(s);
                                }
                            }
                            st.traces += 1;
                            st.states += (ctx.arities.len().saturating_sub(changed_at)) as u64;
                            st.max_depth = st.max_depth.max(ctx.arities.len() as u64);
                            match r {
                                Err(e) => {
                                    *env.engine_error.lock().unwrap() =
                                        Some(format!("{}: {e}; choices {:?}", sc.name, ctx.choices));
                                    stop.store(true, Ordering::Relaxed);
                                    break 'items;
                                }
                                Ok(Ran::Violated(m)) => {
                                    let mut f = found.lock().unwrap();
                                    if f.is_none() {
                                        *f = Some(Violation {
                                            scenario: sc.name.clone(),
                                            choices: ctx.choices.clone(),
                                            message: m,
                                            reproduced: false,
                                        });
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break 'items;
                                }
                                Ok(Ran::Ok) => {}
                            }
                            // next choice sequence inside this subtree
                            let mut k = ctx.choices.len();
                            loop {
                                if k == base {
                                    continue 'items;
                                }
                                k -= 1;
                                if ctx.choices[k] + 1 < ctx.arities[k] {
                                    break;
                                }
                            }
                            ctx.choices.truncate(k + 1);
                            ctx.choices[k] += 1;
                            ctx.arities.truncate(k + 1);
                            ctx.planned = k + 1;
                            changed_at = k;
                            if n % 64 == 0 || t0.elapsed().as_secs() > 5 {
                                if stop.load(Ordering::Relaxed) {
                                    break 'items;
                                }
                                if env.expired() {
                                    complete.store(false, Ordering::Relaxed);
                                    stop.store(true, Ordering::Relaxed);
                                    break 'items;
                                }
                            }
                        }
                    }
                    st.transitions = ctx.calls;
                    let mut t = total.lock().unwrap();
                    t.states += st.states;
                    t.transitions += st.transitions;
                    t.traces += st.traces;
                    t.max_depth = t.max_depth.max(st.max_depth);
                    t.samples.extend(st.samples);
                    drop(t);
                    let mut o = all_outcomes.lock().unwrap();
                    for h in &ctx.outcomes {
                        if o.len() < MAX_OUTCOMES {
                            o.insert(*h);
                        }
                    }
                })
                .expect("spawn");
        }
    });

    let mut st = total.into_inner().unwrap();
    st.outcomes = all_outcomes.into_inner().unwrap().len() as u64;
    st.complete = complete.into_inner();
    if let Some(v) = found.into_inner().unwrap() {
        st.complete = false;
        st.violation = Some(shrink(sc, body, idx, env, v));
    }
    st.wall_s = t0.elapsed().as_secs_f64();
    st
}

/// Makes the counterexample simpler (earlier alternatives first) and replays it twice.
fn shrink(sc: &Scenario, body: &Body, idx: usize, env: &Env, v: Violation) -> Violation {
    let t0 = Instant::now();
    let mut ctx = Ctx::new(&env.journal, 0, sc.devs);
    ctx.lenient = true;
    // executions that hang are slow to repeat
    let slow = std::cell::Cell::new(false);
    let mut try_run = |choices: &[u32]| -> Option<(Vec<u32>, String)> {
        if slow.get() {
            return None;
        }
        let t = Instant::now();
        ctx.choices = choices.to_vec();
        ctx.arities.clear();
        ctx.planned = choices.len();
        let r = match run_once(body, &mut ctx, env, idx) {
            Ok(Ran::Violated(m)) => Some((ctx.choices.clone(), m)),
            _ => None,
        };
        slow.set(t.elapsed() > Duration::from_secs(30));
        r
    };
    let mut best = v.clone();
    let Some(_) = try_run(&best.choices) else {
        return best; // depends on more than its own choices: reported as it was seen
    };
    let mut budget = 400;
    let mut progress = true;
    while progress && budget > 0 && t0.elapsed() < Duration::from_secs(10) {
        progress = false;
        for i in 0..best.choices.len() {
            if i >= best.choices.len() {
                break;
            }
            let c = best.choices[i];
            let mut cands = vec![0, c / 2, c.saturating_sub(1)];
            cands.dedup();
            for cand in cands {
                if cand >= best.choices[i] || budget == 0 || t0.elapsed() > Duration::from_secs(10) {
                    continue;
                }
                budget -= 1;
                let mut q = best.choices.clone();
                q[i] = cand;
                if let Some((ch, m)) = try_run(&q) {
                    best.choices = ch;
                    best.message = m;
                    progress = true;
                    break;
                }
            }
        }
    }
    let a = try_run(&best.choices);
    let b = try_run(&best.choices);
    best.reproduced = a.is_some() && a == b;
    best
}

#[allow(clippy::type_complexity)]
fn guarded<M: Machine>(m: &M, s: &M::S, op: usize, calls: &mut u64) -> Result<Option<Result<M::S, String>>, String> {
    match observe(|| m.step(s, op, calls)) {
        Ok(r) => Ok(r),
        Err(p) => match classify(p)? {
            Ran::Violated(m) => Ok(Some(Err(m))),
            Ran::Ok => unreachable!(),
        },
    }
}

impl<M: Machine + 'static> DynMachine for Wrapped<M> {
    fn search(&self, idx: usize, env: &Env, depth: usize) -> Stats {
        let m = &self.0;
        let t0 = Instant::now();
        let mut st = Stats { complete: true, ..Default::default() };
        let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
        let mut frontier: Vec<(M::S, Vec<u32>)> = Vec::new();
        for (i, s) in m.initials().into_iter().enumerate() {
            if seen.insert(m.key(&s), ()).is_none() {
                st.states += 1;
                frontier.push((s, vec![i as u32]));
            }
        }
        let nops = m.ops();
        let mut edge_kinds: HashSet<u64> = HashSet::new();
        for level in 0..depth {
            if frontier.is_empty() {
                break;
            }
            let last = level + 1 == depth;
            let next = AtomicUsize::new(0);
            let stop = AtomicBool::new(false);
            type Out<S> = (Vec<(Vec<u8>, S, Vec<u32>)>, u64, u64, Option<Violation>, HashSet<u64>);
            let outs: Mutex<Vec<Out<M::S>>> = Mutex::new(Vec::new());
            std::thread::scope(|scope| {
                for w in 0..env.threads {
                    let (frontier, next, stop, outs, seen) = (&frontier, &next, &stop, &outs, &seen);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(scope, move || {
                            let mut found = Vec::new();
                            let mut local: HashSet<Vec<u8>> = HashSet::new();
                            let (mut calls, mut edges) = (0u64, 0u64);
                            let mut viol = None;
                            let mut kinds = HashSet::new();
                            'outer: loop {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= frontier.len() || stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let (s, path) = &frontier[i];
                                for op in 0..nops {
                                    env.journal.begin(w + 1, idx, env.now_ms());
                                    for (k, &c) in path.iter().enumerate() {
                                        env.journal.push(w + 1, k, c);
                                    }
                                    env.journal.push(w + 1, path.len(), op as u32);
                                    let r = guarded(m, s, op, &mut calls);
                                    env.journal.end(w + 1);
                                    let r = match r {
                                        Ok(r) => r,
                                        Err(e) => {
                                            *env.engine_error.lock().unwrap() = Some(e);
                                            stop.store(true, Ordering::Relaxed);
                                            break 'outer;
                                        }
                                    };
                                    match r {
                                        None => {}
                                        Some(Err(msg)) => {
                                            let mut ch = path.clone();
                                            ch.push(op as u32);
                                            viol = Some(Violation {
                                                scenario: String::new(),
                                                choices: ch,
                                                message: msg,
                                                reproduced: false,
                                            });
                                            stop.store(true, Ordering::Relaxed);
                                            break 'outer;
                                        }
                                        Some(Ok(n)) => {
                                            edges += 1;
                                            let k = m.key(&n);
                                            if kinds.len() < MAX_OUTCOMES {
                                                kinds.insert(h64(&k));
                                            }
                                            if !seen.contains_key(&k) && local.insert(k.clone()) {
                                                let mut ch = path.clone();
                                                ch.push(op as u32);
                                                found.push((k, n, ch));
                                            }
                                        }
                                    }
                                }
                                if env.expired() {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            outs.lock().unwrap().push((found, calls, edges, viol, kinds));
                        })
                        .expect("spawn");
                }
            });
            let mut new_frontier = Vec::new();
            if stop.load(Ordering::Relaxed) {
                st.complete = false;
            }
            for (found, calls, edges, viol, kinds) in outs.into_inner().unwrap() {
                st.transitions += calls;
                st.traces += edges;
                edge_kinds.extend(kinds);
                for (k, s, ch) in found {
                    if seen.insert(k, ()).is_none() {
                        st.states += 1;
                        if st.samples.len() < 4 && st.states % 977 == 0 {
                            let op = *ch.last().unwrap() as usize;
                            st.samples.push(format!("choices {ch:?}: {}", m.describe(&s, op)));
                        }
                        if !last {
                            new_frontier.push((s, ch));
                        }
                    }
                }
                if let Some(v) = viol {
                    if st.violation.is_none() {
                        st.violation = Some(v);
                    }
                }
            }
            st.max_depth = level as u64 + 1;
            if st.violation.is_some() || !st.complete {
                break;
            }
            frontier = new_frontier;
        }
        st.outcomes = edge_kinds.len() as u64;
        if let Some(v) = &mut st.violation {
            st.complete = false;
            v.reproduced = self.replay(&v.choices).is_err() && self.replay(&v.choices).is_err();
        }
        st.wall_s = t0.elapsed().as_secs_f64();
        st
    }

    fn replay(&self, choices: &[u32]) -> R {
        let m = &self.0;
        let mut s = m
            .initials()
            .into_iter()
            .nth(choices[0] as usize)
            .ok_or("no such initial state")?;
        let mut calls = 0;
        for &op in &choices[1..] {
            match guarded(m, &s, op as usize, &mut calls)? {
                None => return Ok(()),
                Some(Err(e)) => return Err(e),
                Some(Ok(n)) => s = n,
            }
        }
        Ok(())
    }
}

pub fn explore(sc: &Scenario, idx: usize, env: &Env) -> Stats {
    let mut st = match &sc.kind {
        Kind::Body(b) => explore_body(sc, b, idx, env),
        Kind::Machine(m, depth) => m.search_obj(idx, env, *depth),
    };
    if let Some(v) = &mut st.violation {
        v.scenario = sc.name.clone();
    }
    st
}

/// Runs one choice list again, without exploring.
pub fn replay(sc: &Scenario, idx: usize, env: &Env, choices: &[u32]) -> Result<R, String> {
    match &sc.kind {
        Kind::Body(b) => {
            let mut ctx = Ctx::new(&env.journal, 0, sc.devs);
            ctx.choices = choices.to_vec();
            ctx.planned = choices.len();
            ctx.lenient = true;
            match run_once(b, &mut ctx, env, idx) {
                Err(e) => Err(e),
                Ok(Ran::Ok) => Ok(Ok(())),
                Ok(Ran::Violated(m)) => Ok(Err(m)),
            }
        }
        Kind::Machine(m, _) => Ok(m.replay_obj(choices)),
    }
}
