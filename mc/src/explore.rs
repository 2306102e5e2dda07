//! The explorer.  A driver takes its nondeterministic decisions with `Ctx::choose`; `Check::explore`
//! runs it once per decision sequence, depth first, until all have been run (on several workers, which
//! donate untried alternatives of their shallowest decision to idle ones).  `Check::range` enumerates
//! an indexed finite domain.  Both stop at the first violation and keep what is needed to replay it.

use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Seek, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Payload of the unwinding that reports a violated property.
pub struct Violation(pub String);
/// Payload of a panic that a harness injected into caller-supplied code.
pub struct Injected;
/// Payload that abandons an execution which the driver recognises as redundant.
pub struct Pruned;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Abandons an execution that asks an abstract element type for something it cannot answer.
pub fn abstain() -> ! {
    resume_unwind(Box::new(Pruned))
}

/// What an expected panic was.
#[derive(Debug, Clone, PartialEq)]
pub enum Caught {
    /// injected by the harness
    Injected,
    /// raised by the code under test
    Lib(String),
}

fn describe(p: &(dyn Any + Send)) -> String {
    let text = p
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into());
    let at = LAST_PANIC.with(|l| l.borrow().clone());
    format!("{} [{}]", text, at)
}

/// Runs `f`, turning a panic of the code under test (or an injected one) into a value.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Violation>() || p.is::<Pruned>() {
                resume_unwind(p)
            } else if p.is::<Injected>() {
                Err(Caught::Injected)
            } else {
                Err(Caught::Lib(describe(&*p)))
            }
        }
    }
}

pub fn fail(msg: impl Into<String>) -> ! {
    resume_unwind(Box::new(Violation(msg.into())))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { $crate::explore::fail(format!($($a)+)) } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            $crate::explore::fail(format!("{}: got {:?}, expected {:?}", format!($($m)+), a, b))
        }
    }};
}

#[macro_export]
macro_rules! log {
    ($ctx:expr, $($a:tt)+) => { if $ctx.verbose { let s = format!($($a)+); $ctx.notes.push(s); } };
}

struct Slot {
    busy_since_ms: AtomicU64, // 0: idle
    index: AtomicU64,
    script: Mutex<Vec<u32>>,
}

/// One execution of a driver.
pub struct Ctx {
    script: Vec<u32>,
    arity: Vec<u32>,
    pos: usize,
    pub verbose: bool,
    pub notes: Vec<String>,
    /// the index of `Check::range`
    pub index: u64,
    /// steps of the code under test that were compared with the model
    pub transitions: u64,
    /// evaluations flagged as non-trivial by the driver
    pub nontrivial: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    slot: Arc<Slot>,
    journal: Option<std::fs::File>,
    diverged: bool,
    /// (i, n): explore only the i-th of n parts of the decision tree
    shard: Option<(u64, u64)>,
}

fn h(x: impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

impl Ctx {
    fn new(slot: Arc<Slot>, journal: Option<std::fs::File>) -> Ctx {
        Ctx {
            script: vec![],
            arity: vec![],
            pos: 0,
            verbose: false,
            notes: vec![],
            index: 0,
            transitions: 0,
            nontrivial: 0,
            states: HashSet::new(),
            outcomes: HashSet::new(),
            slot,
            journal,
            diverged: false,
            shard: None,
        }
    }

    /// A decision with `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: choose(0)");
        let n = n as u32;
        if self.pos < self.script.len() {
            if self.pos < self.arity.len() {
                if self.arity[self.pos] != n {
                    self.diverged = true;
                    panic!("harness: divergence while replaying a prefix: arity {} then {}", self.arity[self.pos], n);
                }
            } else {
                self.arity.push(n);
            }
            if self.script[self.pos] >= n {
                self.diverged = true;
                panic!("harness: divergence: choice {} of {}", self.script[self.pos], n);
            }
        } else {
            self.script.push(0);
            self.arity.push(n);
        }
        let c = self.script[self.pos];
        self.pos += 1;
        if !cfg!(miri) {
            self.slot.script.lock().unwrap().push(c);
        }
        self.write_journal();
        if let (Some((i, n)), 3) = (self.shard, self.pos) {
            let k = self.script[..3].iter().fold(7u64, |a, &x| a.wrapping_mul(31).wrapping_add(x as u64 + 1));
            if (k ^ (k >> 7)) % n != i {
                resume_unwind(Box::new(Pruned));
            }
        }
        c as usize
    }

    /// How many decisions this execution has taken.
    pub fn decisions(&self) -> usize {
        self.pos
    }

    /// The decisions taken so far.
    pub fn taken(&self) -> &[u32] {
        &self.script[..self.pos]
    }

    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }

    /// Records the model state reached (for the coverage report).
    pub fn state(&mut self, s: impl Hash) {
        self.transitions += 1;
        self.states.insert(h(s));
    }

    pub fn step(&mut self) {
        self.transitions += 1;
    }

    /// Records what this execution observed (one outcome for many executions means a vacuous driver).
    pub fn outcome(&mut self, s: impl Hash) {
        self.outcomes.insert(h(s));
    }

    fn write_journal(&mut self) {
        if let Some(j) = &mut self.journal {
            let text = format!("{} {:?}\n", self.index, &self.script[..self.pos]);
            let _ = j.rewind();
            let _ = j.set_len(0);
            let _ = j.write_all(text.as_bytes());
        }
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub harness: String,
    pub script: Vec<u32>,
    pub index: u64,
    pub message: String,
    pub notes: Vec<String>,
}

#[derive(Default)]
struct Stat {
    executions: u64,
    transitions: u64,
    nontrivial: u64,
    states: u64,
    outcomes: u64,
    max_choices: u64,
    example: Vec<u32>,
    pruned: u64,
    wall: f64,
}

/// Re-execution of a single recorded execution.
struct Replay {
    script: Vec<u32>,
    index: u64,
}

pub struct Check {
    pub prop: &'static str,
    pub thorough: bool,
    threads: usize,
    only: Option<String>,
    replay: Option<Replay>,
    stats: Mutex<Vec<(String, Stat)>>,
    samples: Mutex<Vec<(String, Vec<String>)>>,
    bounds: Mutex<BTreeMap<String, String>>,
    t0: Instant,
    out: Option<String>,
    journal: Option<String>,
    hang_s: u64,
    shard: Option<(u64, u64)>,
    slots: Vec<Arc<Slot>>,
    current: Arc<Mutex<String>>,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","))
}

impl Check {
    /// Reads the environment: VERIF_TIER, MC_THREADS, MC_OUT (result file), MC_ONLY (harness name),
    /// MC_SCRIPT / MC_INDEX (replay one execution), MC_JOURNAL (write every decision before taking it).
    pub fn new(prop: &'static str) -> Check {
        std::panic::set_hook(Box::new(|i| {
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = at);
        }));
        let env = |k: &str| std::env::var(k).ok().filter(|s| !s.is_empty());
        let replay = env("MC_SCRIPT").map(|s| Replay {
            script: s.split(',').filter(|x| *x != "-").map(|x| x.parse().unwrap()).collect(),
            index: env("MC_INDEX").map_or(0, |i| i.parse().unwrap()),
        });
        let threads = if cfg!(miri) {
            1
        } else {
            env("MC_THREADS").map(|s| s.parse().unwrap()).unwrap_or_else(|| {
                std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
            })
        };
        let slots = (0..threads)
            .map(|_| Arc::new(Slot { busy_since_ms: AtomicU64::new(0), index: AtomicU64::new(0), script: Mutex::new(vec![]) }))
            .collect();
        let c = Check {
            prop,
            thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
            threads,
            only: env("MC_ONLY"),
            replay,
            stats: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            bounds: Mutex::new(BTreeMap::new()),
            t0: Instant::now(),
            out: env("MC_OUT"),
            journal: env("MC_JOURNAL"),
            shard: env("MC_SHARD").map(|s| {
                let (i, n) = s.split_once('/').unwrap();
                (i.parse().unwrap(), n.parse().unwrap())
            }),
            hang_s: env("MC_HANG_S").map(|s| s.parse().unwrap()).unwrap_or(60),
            slots,
            current: Arc::new(Mutex::new(String::new())),
        };
        if !cfg!(miri) {
            c.start_watchdog();
        }
        c
    }

    /// `q` in the quick tier, `t` in the thorough one, `m` under Miri.
    pub fn by_tier<T>(&self, m: T, q: T, t: T) -> T {
        if cfg!(miri) {
            m
        } else if self.thorough {
            t
        } else {
            q
        }
    }

    /// States a bound of the enumeration in the evidence.
    pub fn bound(&self, k: &str, v: impl ToString) {
        self.bounds.lock().unwrap().insert(k.into(), v.to_string());
    }

    fn now_ms(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64 + 1
    }

    /// A single execution normally takes microseconds; one that takes longer than MC_HANG_S seconds does not
    /// terminate (every driver loop is bounded, so the loop is in the code under test).
    fn start_watchdog(&self) {
        let slots = self.slots.clone();
        let t0 = self.t0;
        let (limit, out, cur, prop) = (self.hang_s * 1000, self.out.clone(), self.current.clone(), self.prop);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed().as_millis() as u64 + 1;
            for s in &slots {
                let b = s.busy_since_ms.load(SeqCst);
                if b != 0 && now > b + limit {
                    let f = Found {
                        harness: cur.lock().unwrap().clone(),
                        script: s.script.lock().unwrap().clone(),
                        index: s.index.load(SeqCst),
                        message: format!("one execution did not terminate within {} s", limit / 1000),
                        notes: vec![],
                    };
                    write_found(prop, &out, &f);
                    std::process::exit(10);
                }
            }
        });
    }

    fn skip(&self, name: &str) -> bool {
        self.only.as_ref().map_or(false, |o| o != name)
    }

    fn journal_file(&self, name: &str) -> Option<std::fs::File> {
        let j = self.journal.as_ref()?;
        std::fs::write(format!("{}.harness", j), name).ok()?;
        std::fs::File::create(j).ok()
    }

    fn one(&self, ctx: &mut Ctx, f: &(dyn Fn(&mut Ctx) + Sync)) -> Result<bool, String> {
        ctx.pos = 0;
        if !cfg!(miri) {
            ctx.slot.script.lock().unwrap().clear();
            ctx.slot.index.store(ctx.index, SeqCst);
            ctx.slot.busy_since_ms.store(self.now_ms(), SeqCst);
        }
        ctx.write_journal();
        let before = ctx.transitions;
        let r = catch_unwind(AssertUnwindSafe(|| f(ctx)));
        if ctx.transitions > before {
            ctx.nontrivial += 1;
        }
        if !cfg!(miri) {
            ctx.slot.busy_since_ms.store(0, SeqCst);
        }
        match r {
            Ok(()) => {
                if ctx.pos < ctx.script.len() {
                    return Err("the same calls gave other results before: the execution ends earlier than the one that shares its prefix".into());
                }
                Ok(true)
            }
            Err(p) => {
                if ctx.diverged {
                    return Err(format!("the same calls gave other results before ({})", describe(&*p)));
                }
                if p.is::<Pruned>() {
                    return Ok(false);
                }
                match p.downcast::<Violation>() {
                    Ok(v) => Err(v.0),
                    Err(p) if p.is::<Injected>() => Err("an injected panic escaped the operation's catch".into()),
                    Err(p) => Err(format!("unexpected panic: {}", describe(&*p))),
                }
            }
        }
    }

    /// Explores every decision sequence of `f`.
    pub fn explore(&self, name: &str, f: impl Fn(&mut Ctx) + Sync) {
        if self.skip(name) {
            return;
        }
        *self.current.lock().unwrap() = name.to_string();
        if let Some(r) = &self.replay {
            return self.replay_one(name, &f, r.script.clone(), 0);
        }
        let t = Instant::now();
        // work items: (script prefix, arities of the prefix, limit): the last choice of the prefix ranges up to limit
        let queue: Mutex<Vec<(Vec<u32>, Vec<u32>, u32)>> = Mutex::new(vec![(vec![], vec![], 0)]);
        let qlen = AtomicUsize::new(1);
        let idle = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let total: Mutex<(Stat, HashSet<u64>, HashSet<u64>)> = Mutex::new(Default::default());
        let worker = |w: usize| {
            let mut ctx = Ctx::new(self.slots[w].clone(), self.journal_file(name));
            ctx.shard = self.shard;
            let mut st = Stat::default();
            'work: loop {
                // get an item or finish
                let mut waiting = false;
                let (script, arity, limit) = loop {
                    if stop.load(SeqCst) {
                        break 'work;
                    }
                    if qlen.load(SeqCst) > 0 || !waiting {
                        let mut q = queue.lock().unwrap();
                        if let Some(x) = q.pop() {
                            if waiting {
                                idle.fetch_sub(1, SeqCst);
                            }
                            qlen.store(q.len(), SeqCst);
                            break x;
                        }
                        if !waiting {
                            waiting = true;
                            idle.fetch_add(1, SeqCst);
                        }
                    }
                    if idle.load(SeqCst) == self.threads && qlen.load(SeqCst) == 0 {
                        break 'work;
                    }
                    std::thread::sleep(Duration::from_micros(100));
                };
                // levels below `base` are fixed; the choice at level `base` stays below `limit`
                let mut base = script.len().saturating_sub(1);
                let mut limit = if script.is_empty() { u32::MAX } else { limit };
                ctx.script = script;
                ctx.arity = arity;
                loop {
                    match self.one(&mut ctx, &f) {
                        Ok(true) => {
                            st.executions += 1;
                            if st.executions.is_power_of_two() {
                                st.example = ctx.script.clone();
                            }
                        }
                        Ok(false) => {
                            st.pruned += 1;
                            ctx.script.truncate(ctx.pos);
                            ctx.arity.truncate(ctx.pos);
                        }
                        Err(message) => {
                            ctx.script.truncate(ctx.pos);
                            let mut g = found.lock().unwrap();
                            let x = Found { harness: name.into(), script: ctx.script.clone(), index: 0, message, notes: vec![] };
                            if g.as_ref().map_or(true, |y| (x.script.len(), &x.script) < (y.script.len(), &y.script)) {
                                *g = Some(x);
                            }
                            stop.store(true, SeqCst);
                        }
                    }
                    st.max_choices = st.max_choices.max(ctx.script.len() as u64);
                    if stop.load(Relaxed) {
                        break 'work;
                    }
                    // donate
                    if idle.load(Relaxed) > 0 && qlen.load(Relaxed) == 0 && !cfg!(miri) {
                        let mut q = queue.lock().unwrap();
                        if q.is_empty() {
                            while base < ctx.script.len() {
                                let end = ctx.arity[base].min(limit);
                                let c = ctx.script[base];
                                if c + 1 < end {
                                    // give away the upper half of the untried alternatives
                                    let mid = c + 1 + (end - c - 1) / 2;
                                    let mut s = ctx.script[..base].to_vec();
                                    s.push(mid);
                                    q.push((s, ctx.arity[..base + 1].to_vec(), end));
                                    qlen.store(q.len(), SeqCst);
                                    limit = mid;
                                    break;
                                }
                                base += 1;
                                limit = u32::MAX;
                            }
                        }
                    }
                    // next sequence in depth-first order
                    loop {
                        if ctx.script.len() <= base {
                            continue 'work;
                        }
                        let i = ctx.script.len() - 1;
                        if ctx.script[i] + 1 < if i == base { ctx.arity[i].min(limit) } else { ctx.arity[i] } {
                            ctx.script[i] += 1;
                            break;
                        }
                        ctx.script.pop();
                        ctx.arity.pop();
                    }
                }
            }
            let mut g = total.lock().unwrap();
            g.0.executions += st.executions;
            if w == 0 {
                g.0.example = st.example;
            }
            g.0.pruned += st.pruned;
            g.0.max_choices = g.0.max_choices.max(st.max_choices);
            g.0.transitions += ctx.transitions;
            g.0.nontrivial += ctx.nontrivial;
            g.1.extend(ctx.states);
            g.2.extend(ctx.outcomes);
        };
        if self.threads == 1 {
            worker(0);
        } else {
            std::thread::scope(|s| {
                for w in 0..self.threads {
                    let worker = &worker;
                    std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || worker(w)).unwrap();
                }
            });
        }
        if let Some(x) = found.into_inner().unwrap() {
            self.violated(x, &f);
        }
        let (mut st, states, outcomes) = total.into_inner().unwrap();
        st.states = states.len() as u64;
        st.outcomes = outcomes.len() as u64;
        st.wall = t.elapsed().as_secs_f64();
        self.sample(name, &f, st.example.clone(), 0);
        self.stats.lock().unwrap().push((name.into(), st));
    }

    /// Enumerates `f(ctx, i)` for every i < n.
    pub fn range(&self, name: &str, n: u64, f: impl Fn(&mut Ctx, u64) + Sync) {
        if self.skip(name) {
            return;
        }
        *self.current.lock().unwrap() = name.to_string();
        // a shard takes every n-th index
        let (shard_i, shard_n) = if self.replay.is_some() { (0, 1) } else { self.shard.unwrap_or((0, 1)) };
        let n = (n + shard_n - 1 - shard_i) / shard_n;
        let f = |ctx: &mut Ctx, i: u64| {
            let i = i * shard_n + shard_i;
            ctx.index = i;
            ctx.write_journal();
            f(ctx, i)
        };
        let g = |ctx: &mut Ctx| f(ctx, ctx.index);
        if let Some(r) = &self.replay {
            return self.replay_one(name, &g, vec![], r.index);
        }
        let t = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let total: Mutex<(Stat, HashSet<u64>, HashSet<u64>)> = Mutex::new(Default::default());
        let chunk = (n / (self.threads as u64 * 16)).clamp(1, 4096);
        let worker = |w: usize| {
            let mut ctx = Ctx::new(self.slots[w].clone(), self.journal_file(name));
            let mut done = 0;
            while !stop.load(Relaxed) {
                let a = next.fetch_add(chunk, SeqCst);
                if a >= n {
                    break;
                }
                let b = (a + chunk).min(n);
                let r = if ctx.journal.is_some() {
                    let mut r = Ok(true);
                    for i in a..b {
                        ctx.index = i;
                        r = self.one(&mut ctx, &g);
                        if r.is_err() {
                            break;
                        }
                    }
                    r
                } else {
                    self.one(&mut ctx, &|ctx: &mut Ctx| {
                        for i in a..b {
                            ctx.index = i;
                            if i & 15 == 0 && !cfg!(miri) {
                                ctx.slot.index.store(i, SeqCst);
                                ctx.slot.busy_since_ms.store(self.now_ms(), SeqCst);
                            }
                            let before = ctx.transitions;
                            f(ctx, i);
                            if i + 1 < b && ctx.transitions > before {
                                ctx.nontrivial += 1;
                            }
                        }
                    })
                };
                if let Err(message) = r {
                    let mut g = found.lock().unwrap();
                    let x = Found { harness: name.into(), script: vec![], index: ctx.index, message, notes: vec![] };
                    if g.as_ref().map_or(true, |y| x.index < y.index) {
                        *g = Some(x);
                    }
                    stop.store(true, SeqCst);
                    break;
                }
                done += b - a;
            }
            let mut g = total.lock().unwrap();
            g.0.executions += done;
            g.0.transitions += ctx.transitions;
            g.0.nontrivial += ctx.nontrivial;
            g.1.extend(ctx.states);
            g.2.extend(ctx.outcomes);
        };
        if self.threads == 1 || n < 16 {
            worker(0);
        } else {
            std::thread::scope(|s| {
                for w in 0..self.threads {
                    let worker = &worker;
                    std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || worker(w)).unwrap();
                }
            });
        }
        if let Some(x) = found.into_inner().unwrap() {
            self.violated(x, &g);
        }
        let (mut st, states, outcomes) = total.into_inner().unwrap();
        st.states = states.len() as u64;
        st.outcomes = outcomes.len() as u64;
        st.wall = t.elapsed().as_secs_f64();
        if n > 0 {
            self.sample(name, &g, vec![], n / 2);
        }
        self.stats.lock().unwrap().push((name.into(), st));
    }

    /// One evaluation without decisions.
    pub fn single(&self, name: &str, f: impl Fn(&mut Ctx) + Sync) {
        self.range(name, 1, |c, _| f(c));
    }

    fn run_verbose(&self, f: &(dyn Fn(&mut Ctx) + Sync), script: Vec<u32>, index: u64) -> (Result<bool, String>, Vec<String>) {
        let mut ctx = Ctx::new(self.slots[0].clone(), None);
        ctx.script = script;
        ctx.index = index;
        ctx.verbose = true;
        // an execution may take more decisions than recorded (crash traces): the extra ones take choice 0
        let r = self.one(&mut ctx, f);
        (r, ctx.notes)
    }

    fn sample(&self, name: &str, f: &(dyn Fn(&mut Ctx) + Sync), script: Vec<u32>, index: u64) {
        if cfg!(miri) || self.samples.lock().unwrap().len() >= 24 {
            return;
        }
        let (_, notes) = self.run_verbose(f, script, index);
        if !notes.is_empty() {
            self.samples.lock().unwrap().push((name.into(), notes));
        }
    }

    fn violated(&self, mut x: Found, f: &(dyn Fn(&mut Ctx) + Sync)) -> ! {
        // the same decisions are expected to fail again
        let mut again = 0;
        for _ in 0..if cfg!(miri) { 0 } else { 3 } {
            let (r, notes) = self.run_verbose(f, x.script.clone(), x.index);
            if r.is_err() {
                again += 1;
                x.notes = notes;
            }
        }
        if again == 0 && !cfg!(miri) {
            // harnesses keep nothing from one execution to the next, so the code under test does
            x.message += " (not when executed alone: the outcome depends on what this process did before)";
        }
        write_found(self.prop, &self.out, &x);
        std::process::exit(10)
    }

    fn replay_one(&self, name: &str, f: &(dyn Fn(&mut Ctx) + Sync), script: Vec<u32>, index: u64) {
        let (r, notes) = self.run_verbose(f, script.clone(), index);
        println!("replay of {} {:?} index {}", name, script, index);
        for n in &notes {
            println!("  {}", n);
        }
        match r {
            Ok(_) => println!("  no violation"),
            Err(message) => {
                write_found(self.prop, &self.out, &Found { harness: name.into(), script, index, message, notes });
                std::process::exit(10);
            }
        }
    }

    /// Writes the coverage report.
    pub fn finish(self) {
        let mut hs = vec![];
        for (n, s) in self.stats.lock().unwrap().iter() {
            hs.push(format!(
                "{{\"name\":{},\"executions\":{},\"transitions\":{},\"states\":{},\"outcomes\":{},\"nontrivial\":{},\"pruned\":{},\"max_decisions\":{},\"wall_s\":{:.3}}}",
                json_str(n), s.executions, s.transitions, s.states, s.outcomes, s.nontrivial, s.pruned, s.max_choices, s.wall
            ));
        }
        let ss: Vec<String> = self
            .samples
            .lock()
            .unwrap()
            .iter()
            .map(|(n, t)| format!("{{\"harness\":{},\"trace\":{}}}", json_str(n), json_list(&t[..t.len().min(12)])))
            .collect();
        let bs: Vec<String> =
            self.bounds.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", json_str(k), json_str(v))).collect();
        let text = format!(
            "{{\"ok\":true,\"harnesses\":[{}],\"samples\":[{}],\"bounds\":{{{}}}}}\n",
            hs.join(","),
            ss.join(","),
            bs.join(",")
        );
        match &self.out {
            Some(p) => std::fs::write(p, text).unwrap(),
            None => print!("{}", text.replace("},{", "},\n{")),
        }
    }
}

fn write_found(prop: &str, out: &Option<String>, x: &Found) {
    let text = format!(
        "{{\"ok\":false,\"property\":{},\"harness\":{},\"script\":{:?},\"index\":{},\"message\":{},\"trace\":{}}}\n",
        json_str(prop),
        json_str(&x.harness),
        x.script,
        x.index,
        json_str(&x.message),
        json_list(&x.notes)
    );
    match out {
        Some(p) => {
            let _ = std::fs::write(p, text);
        }
        None => println!("{}", text),
    }
}
