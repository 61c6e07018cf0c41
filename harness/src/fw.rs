//! The explorer framework: units of work, cases, counters, crash and hang detection.
#![allow(dead_code)]

use std::{
    cell::RefCell,
    collections::{HashMap, HashSet},
    fmt::Debug,
    hash::{BuildHasherDefault, Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    /// Picks a bound by tier
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        if self == Tier::Quick {
            quick
        } else {
            thorough
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

/// A piece of a property's bounded space that one worker thread explores.
pub struct Unit {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx) + Send + Sync>,
}

pub fn unit(name: impl Into<String>, run: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Unit {
    Unit { name: name.into(), run: Box::new(run) }
}

/// Splits an enumeration over `n` units: `run` gets a [`Part`] telling which items are its own.
pub fn split_unit(
    units: &mut Vec<Unit>,
    name: &str,
    n: usize,
    run: impl Fn(&mut Ctx, &mut Part) + Send + Sync + 'static,
) {
    let run = Arc::new(run);
    for k in 0..n {
        let run = run.clone();
        units.push(unit(format!("{name}#{k}/{n}"), move |ctx| {
            run(ctx, &mut Part { k, n, i: 0 })
        }));
    }
}

pub struct Part {
    k: usize,
    n: usize,
    i: usize,
}

impl Part {
    pub fn k(&self) -> usize {
        self.k
    }
    /// Does the next item of the enumeration belong to this part?
    pub fn mine(&mut self) -> bool {
        let m = self.i % self.n == self.k;
        self.i += 1;
        m
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// What the bounded space is and how cases count
    pub rule: &'static str,
    pub bounds: fn(Tier) -> Value,
    pub assumptions: &'static [&'static str],
    pub units: fn(Tier) -> Vec<Unit>,
}

// ---------------------------------------------------------------------------------------------

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^ (x >> 32)
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut v = 0u64;
            for (i, b) in c.iter().enumerate() {
                v |= (*b as u64) << (8 * i);
            }
            self.write_u64(v ^ (c.len() as u64) << 56);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxSet<T> = HashSet<T, BuildHasherDefault<Fx>>;
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

/// What a case observes of the implementation.
#[derive(Default)]
pub struct Obs {
    h: Fx,
    seen: bool,
    steps: u64,
}

impl Obs {
    /// Records something observed (makes the case non-trivial)
    pub fn see<T: Hash + ?Sized>(&mut self, t: &T) {
        self.seen = true;
        t.hash(&mut self.h);
    }
    /// Counts `n` calls of the implementation that were compared with the model
    pub fn step(&mut self, n: u64) {
        self.steps += n;
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub unit: String,
    pub case: String,
    pub detail: String,
}

const MAX_OUTCOMES: usize = 3_000_000;
const MAX_VIOLATIONS_PER_UNIT: usize = 10;
const MAX_VIOLATIONS: usize = 60;

#[derive(Default)]
pub struct Totals {
    pub evaluations: u64,
    pub steps: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: FxSet<u64>,
    pub outcomes_capped: bool,
    pub violations: Vec<Violation>,
    pub samples: Vec<Value>,
    pub capped: Vec<String>,
    pub units: Vec<Value>,
}

pub struct Shared {
    stop: AtomicBool,
    beat: Vec<AtomicU64>,
    busy: Vec<AtomicBool>,
    /// Kernel thread ids
    threads: Vec<AtomicU64>,
    next: AtomicUsize,
    num_violations: AtomicUsize,
}

pub struct Ctx<'a> {
    unit: String,
    unit_hash: u64,
    shared: &'a Shared,
    worker: usize,
    trace: Option<&'a Mutex<std::fs::File>>,
    only_case: Option<&'a str>,
    pub t: Totals,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// `true` if `f` panics
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

impl Ctx<'_> {
    /// Explores one case.  `Err` or a panic is a violation.  Returns `true` if the case held.
    pub fn case(
        &mut self,
        desc: impl FnOnce() -> String,
        f: impl FnOnce(&mut Obs) -> Result<(), String>,
    ) -> bool {
        if self.shared.stop.load(Relaxed) {
            return true;
        }
        let mut desc_fn = Some(desc);
        let mut desc_str: Option<String> = None;
        if self.only_case.is_some() || self.trace.is_some() {
            let d = (desc_fn.take().unwrap())();
            if let Some(oc) = self.only_case {
                if oc == d {
                    eprintln!("replaying case: {d}");
                }
            }
            if let Some(file) = self.trace {
                use std::os::unix::fs::FileExt;
                let f = file.lock().unwrap();
                let mut b = (d.len() as u64).to_le_bytes().to_vec();
                b.extend_from_slice(d.as_bytes());
                let _ = f.write_all_at(&b, 0);
            }
            desc_str = Some(d);
        }
        self.shared.beat[self.worker].fetch_add(1, Relaxed);
        let mut obs = Obs::default();
        let r = match catch_unwind(AssertUnwindSafe(|| f(&mut obs))) {
            Ok(r) => r,
            Err(_) => Err(LAST_PANIC.with(|p| format!("unexpected panic: {}", p.borrow()))),
        };
        let n = self.t.evaluations;
        self.t.evaluations += 1;
        self.t.steps += obs.steps.max(1);
        if obs.seen {
            if self.t.outcomes.len() < MAX_OUTCOMES {
                let h = obs.h.finish() ^ self.unit_hash;
                self.t.outcomes.insert(h);
            } else {
                self.t.outcomes_capped = true;
            }
        }
        if let Err(detail) = r {
            let case = desc_str.unwrap_or_else(|| (desc_fn.take().unwrap())());
            if let Some(oc) = self.only_case {
                if oc == case {
                    eprintln!("case: {case}\n  {detail}");
                }
            }
            self.violation(case, detail);
            false
        } else {
            // Keep a few samples, spread over the unit
            if n == 0 || n == 1000 {
                let case = desc_str
                    .or_else(|| desc_fn.take().map(|d| caught(d).unwrap_or_default()))
                    .unwrap_or_default();
                let case: String = case.chars().take(400).collect();
                self.t.samples.push(json!({"unit": self.unit, "case": case}));
            }
            true
        }
    }

    pub fn violation(&mut self, case: String, detail: String) {
        if self.t.violations.len() < MAX_VIOLATIONS_PER_UNIT {
            self.t.violations.push(Violation { unit: self.unit.clone(), case, detail });
        }
        if self.shared.num_violations.fetch_add(1, Relaxed) + 1 >= MAX_VIOLATIONS {
            self.shared.stop.store(true, Relaxed);
        }
    }

    pub fn stopped(&self) -> bool {
        self.shared.stop.load(Relaxed)
    }

    pub fn beat(&self) {
        self.shared.beat[self.worker].fetch_add(1, Relaxed);
    }

    /// A cap was hit: record it so that the run isn't called exhaustive
    pub fn capped(&mut self, what: String) {
        self.t.capped.push(format!("{}: {what}", self.unit));
    }
}

// ---------------------------------------------------------------------------------------------
// Explicit-state exploration of operation sequences

/// A system explored by [`explore`]: the real object and its model advance together.
pub trait System {
    /// Real object + model
    type State;
    type Op: Clone + Debug;
    /// Everything that can influence the future of a state
    type Key: Hash + Eq;

    fn key(&self, s: &Self::State) -> Self::Key;
    fn ops(&self, s: &Self::State) -> Vec<Self::Op>;
    /// Applies `op` to a copy of `s` and compares everything observable with the model
    fn apply(&self, s: &Self::State, op: &Self::Op, o: &mut Obs) -> Result<Self::State, String>;
    fn describe(&self, s: &Self::State) -> String;
}

/// Breadth-first exploration of all operation sequences from `inits` to `depth`.  States are merged when
/// their key is equal *and* they were reached by the same last operation (so that hidden state left by an
/// operation, which no key could know about, is exercised at least once after each kind of operation).
pub fn explore<S: System>(
    ctx: &mut Ctx,
    sys: &S,
    inits: Vec<(String, S::State)>,
    depth: usize,
    max_states: usize,
    merge_last_op: bool,
) {
    struct Node<Op> {
        parent: usize,
        op: Option<Op>,
        label: Option<String>,
    }
    let mut nodes: Vec<Node<S::Op>> = Vec::new();
    let mut seen: FxSet<u64> = FxSet::default();
    let mut frontier: Vec<(usize, S::State)> = Vec::new();
    for (label, s) in inits {
        if seen.insert(hash_of(&(sys.key(&s), ""))) {
            nodes.push(Node { parent: usize::MAX, op: None, label: Some(label) });
            frontier.push((nodes.len() - 1, s));
            ctx.t.states += 1;
        }
    }
    fn path<Op: Debug>(nodes: &[Node<Op>], mut i: usize) -> String {
        let mut parts = vec![];
        loop {
            let n = &nodes[i];
            match (&n.op, &n.label) {
                (Some(op), _) => parts.push(format!("{op:?}")),
                (None, l) => {
                    parts.push(l.clone().unwrap_or_default());
                    break;
                }
            }
            i = n.parent;
        }
        parts.reverse();
        parts.join("; ")
    }
    for d in 0..depth {
        let mut next = Vec::new();
        for (ni, s) in frontier {
            if ctx.stopped() {
                return;
            }
            for op in sys.ops(&s) {
                let mut new_state = None;
                ctx.case(
                    || format!("{}; {:?}", path(&nodes, ni), op),
                    |o| {
                        let n = sys.apply(&s, &op, o)?;
                        new_state = Some(n);
                        Ok(())
                    },
                );
                ctx.t.transitions += 1;
                if let Some(n) = new_state {
                    let op_text = if merge_last_op { String::new() } else { format!("{op:?}") };
                    if seen.insert(hash_of(&(sys.key(&n), op_text))) {
                        ctx.t.states += 1;
                        if d + 1 < depth {
                            if nodes.len() >= max_states {
                                ctx.capped(format!("{max_states} states at depth {}", d + 1));
                                return;
                            }
                            nodes.push(Node { parent: ni, op: Some(op.clone()), label: None });
                            next.push((nodes.len() - 1, n));
                        } else {
                            ctx.t.traces += 1;
                        }
                    } else {
                        ctx.t.traces += 1;
                    }
                }
            }
        }
        frontier = next;
    }
    ctx.t.traces += frontier.len() as u64;
}

// ---------------------------------------------------------------------------------------------

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {
        match (&$a, &$b) { (a, b) => {
          if !(*a == *b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
          } } }
    };
}

// ---------------------------------------------------------------------------------------------
// Running

pub struct RunOpts {
    pub only_unit: Option<String>,
    pub trace: Option<PathBuf>,
    pub only_case: Option<String>,
    pub status_dir: Option<PathBuf>,
}

pub const EXIT_HANG: i32 = 98;
/// A call hangs if its thread has used this much processor time for one case (so that a busy machine doesn't matter) ...
const HANG_SECS: u64 = 40;
/// ... or, should it be asleep, after this much time altogether.
const ASLEEP_SECS: u64 = 400;

/// The processor time used by the thread with kernel id `tid` (zero if it has ended)
fn cpu_time(tid: u64) -> Duration {
    // The kernel's number for a thread's processor clock
    let clock = (!(tid as libc::clockid_t) << 3) | 6;
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: `t` is valid; unknown clocks are refused
    match unsafe { libc::clock_gettime(clock, &mut t) } {
        0 => Duration::new(t.tv_sec as u64, t.tv_nsec as u32),
        _ => Duration::ZERO,
    }
}

/// Runs the units of `prop` in this process.
pub fn run_units(prop: &Prop, tier: Tier, opts: &RunOpts) -> Totals {
    let mut units = (prop.units)(tier);
    {
        let mut names = HashSet::new();
        for u in &units {
            assert!(names.insert(u.name.clone()), "duplicate unit name {}", u.name);
        }
    }
    if let Some(only) = &opts.only_unit {
        units.retain(|u| &u.name == only);
        assert!(!units.is_empty(), "no such unit: {only}");
    }
    let threads = std::thread::available_parallelism()
        .map_or(4, |n| n.get())
        .min(8)
        .min(units.len().max(1));
    let shared = Shared {
        stop: AtomicBool::new(false),
        beat: (0..threads).map(|_| AtomicU64::new(0)).collect(),
        busy: (0..threads).map(|_| AtomicBool::new(false)).collect(),
        threads: (0..threads).map(|_| AtomicU64::new(0)).collect(),
        next: AtomicUsize::new(0),
        num_violations: AtomicUsize::new(0),
    };
    let trace_file = opts
        .trace
        .as_ref()
        .map(|p| Mutex::new(std::fs::File::create(p).expect("can't create trace file")));
    let totals = Mutex::new(Totals::default());
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let (shared, totals, units, done) = (&shared, &totals, &units, &done);
        let trace_file = trace_file.as_ref();
        // Watchdog
        let status_dir = opts.status_dir.clone();
        sc.spawn(move || {
            let mut last: Vec<(u64, Instant, Option<Duration>)> = vec![(0, Instant::now(), None); threads];
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for w in 0..threads {
                    let b = shared.beat[w].load(Relaxed);
                    if b != last[w].0 || !shared.busy[w].load(Relaxed) {
                        last[w] = (b, Instant::now(), None);
                        continue;
                    }
                    if last[w].1.elapsed() < Duration::from_secs(1) {
                        continue;
                    }
                    let used = cpu_time(shared.threads[w].load(Relaxed));
                    let since = *last[w].2.get_or_insert(used);
                    if used.saturating_sub(since) > Duration::from_secs(HANG_SECS) || last[w].1.elapsed() > Duration::from_secs(ASLEEP_SECS) {
                        if let Some(d) = &status_dir {
                            let _ = std::fs::write(d.join("hang"), format!("{w}"));
                        }
                        eprintln!("worker {w} made no progress for {:?}", last[w].1.elapsed());
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        });
        let handles: Vec<_> = (0..threads)
            .map(|w| {
                let status_dir = opts.status_dir.clone();
                let only_case = opts.only_case.as_deref();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        // SAFETY: no precondition
                        shared.threads[w].store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, Relaxed);
                        let i = shared.next.fetch_add(1, Relaxed);
                        let Some(u) = units.get(i) else { return };
                        if let Some(d) = &status_dir {
                            let _ = std::fs::write(d.join(format!("worker{w}")), &u.name);
                        }
                        let mut ctx = Ctx {
                            unit: u.name.clone(),
                            unit_hash: hash_of(&u.name.split('#').next()),
                            shared,
                            worker: w,
                            trace: trace_file,
                            only_case,
                            t: Totals::default(),
                        };
                        shared.beat[w].fetch_add(1, Relaxed);
                        shared.busy[w].store(true, Relaxed);
                        let start = Instant::now();
                        let r = caught(|| (u.run)(&mut ctx));
                        shared.busy[w].store(false, Relaxed);
                        if let Some(d) = &status_dir {
                            let _ = std::fs::remove_file(d.join(format!("worker{w}")));
                        }
                        if let Err(msg) = r {
                            // A panic outside a case: set-up code of the unit failed
                            ctx.violation(format!("setting up unit {}", u.name), format!("unexpected panic: {msg}"));
                        }
                        let t = ctx.t;
                        let mut tot = totals.lock().unwrap();
                        tot.evaluations += t.evaluations;
                        tot.steps += t.steps;
                        tot.states += t.states;
                        tot.transitions += t.transitions;
                        tot.traces += t.traces;
                        tot.outcomes_capped |= t.outcomes_capped;
                        tot.units.push(json!({
                            "unit": u.name, "evaluations": t.evaluations, "states": t.states,
                            "transitions": t.transitions, "calls_compared": t.steps,
                            "distinct_outcomes": t.outcomes.len(),
                            "wall_s": (start.elapsed().as_millis() as f64) / 1000.0,
                        }));
                        if tot.outcomes.len() < 4 * MAX_OUTCOMES {
                            tot.outcomes.extend(t.outcomes);
                        } else {
                            tot.outcomes_capped = true;
                        }
                        tot.violations.extend(t.violations);
                        tot.capped.extend(t.capped);
                        tot.samples.extend(t.samples);
                    })
                    .expect("spawn")
            })
            .collect();
        for h in handles {
            let _ = h.join();
        }
        done.store(true, Relaxed);
    });
    let mut t = totals.into_inner().unwrap();
    t.violations.sort_by(|a, b| (&a.unit, a.case.len(), &a.case).cmp(&(&b.unit, b.case.len(), &b.case)));
    t.units.sort_by_key(|u| u["unit"].as_str().unwrap_or("").to_owned());
    t.samples.sort_by_key(|u| u.to_string());
    t
}

pub fn limit_memory(bytes: u64) {
    let lim = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

pub fn totals_to_json(t: &Totals) -> Value {
    json!({
        "evaluations": t.evaluations, "calls": t.steps, "states": t.states, "transitions": t.transitions,
        "traces": t.traces, "distinct": t.outcomes.len(), "distinct_capped": t.outcomes_capped,
        "violations": t.violations.iter().map(|v| json!({"unit": v.unit, "case": v.case, "detail": v.detail})).collect::<Vec<_>>(),
        "samples": t.samples, "capped": t.capped, "units": t.units,
    })
}

pub fn read_trace(p: &Path) -> Option<String> {
    let b = std::fs::read(p).ok()?;
    let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
    Some(String::from_utf8_lossy(b.get(8..8 + n)?).into_owned())
}
