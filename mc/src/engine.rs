//! Stateless exhaustive explorer.
//!
//! A scenario is a deterministic function that obtains every non-deterministic decision (which
//! operation comes next, which value a field has, which thread runs, which I/O call fails, ...)
//! from `Ch::choose`. The explorer enumerates *all* choice sequences depth first, spread over
//! worker threads by handing out disjoint prefixes.

use std::collections::{HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    /// identifies the failing input/call site/history class, used for the known-findings file
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($fmt:tt)*) => {
        if !$cond { return $crate::engine::fail($key, format!($($fmt)*)); }
    };
}

#[derive(Default)]
struct Inner {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    budget: i64,
    steps: u64,
    validated: u64,
    outcome: u64,
    notes: Option<Vec<String>>,
    diverged: Option<String>,
}

#[derive(Clone)]
pub struct Ch(Arc<Mutex<Inner>>);

impl Ch {
    fn new(prefix: Vec<u32>, budget: i64, notes: bool) -> Ch {
        Ch(Arc::new(Mutex::new(Inner {
            prefix,
            budget,
            notes: if notes { Some(vec![]) } else { None },
            outcome: 0xcbf29ce484222325,
            ..Default::default()
        })))
    }
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// One of `n` alternatives, all explored.
    pub fn choose(&self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        if n == 1 {
            return 0;
        }
        let mut i = self.lock();
        i.pick(n)
    }
    pub fn flag(&self) -> bool {
        self.choose(2) == 1
    }
    pub fn of<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    /// As `choose`, but every alternative other than 0 is a deviation that costs one unit of the
    /// scenario's deviation budget.
    pub fn deviate(&self, n: usize) -> usize {
        let mut i = self.lock();
        if i.budget <= 0 || n <= 1 {
            return 0;
        }
        let c = i.pick(n);
        if c != 0 {
            i.budget -= 1;
        }
        c
    }
    pub fn set_budget(&self, b: i64) {
        self.lock().budget = b;
    }
    pub fn step(&self) {
        self.lock().steps += 1;
    }
    pub fn steps(&self, n: u64) {
        self.lock().steps += n;
    }
    /// The outcome of a run of the real code was compared with the reference/model.
    pub fn validated(&self) {
        self.lock().validated += 1;
    }
    pub fn outcome(&self, bytes: &[u8]) {
        let mut i = self.lock();
        let mut h = i.outcome;
        for b in bytes {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        i.outcome = h ^ (bytes.len() as u64) << 48;
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        let mut i = self.lock();
        if i.notes.is_some() {
            let s = f();
            i.notes.as_mut().unwrap().push(s);
        }
    }
    fn choices(&self) -> Vec<u32> {
        match self.0.try_lock() {
            Ok(i) => i.trace.iter().map(|t| t.0).collect(),
            Err(_) => vec![],
        }
    }
}

impl Inner {
    fn pick(&mut self, n: usize) -> usize {
        let at = self.trace.len();
        let c = if at < self.prefix.len() { self.prefix[at] } else { 0 };
        let c = if (c as usize) < n {
            c
        } else {
            self.diverged = Some(format!("choice {} of {} at depth {}", c, n, at));
            0
        };
        self.trace.push((c, n as u32));
        c as usize
    }
}

pub struct Scenario {
    pub name: String,
    pub budget: i64,
    pub run: Box<dyn Fn(&Ch) -> Res + Send + Sync>,
}

impl Scenario {
    pub fn new(name: impl Into<String>, run: impl Fn(&Ch) -> Res + Send + Sync + 'static) -> Scenario {
        Scenario { name: name.into(), budget: 0, run: Box::new(run) }
    }
    pub fn with_budget(mut self, b: i64) -> Scenario {
        self.budget = b;
        self
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub choices: Vec<u32>,
    pub fail: Fail,
    pub notes: Vec<String>,
    pub reproduced: bool,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub choice_points: u64,
    pub steps: u64,
    pub validated: u64,
    pub outcomes: u64,
    pub max_depth: usize,
    pub capped: bool,
    /// executions in which the choices before were not there any more
    pub diverged: u64,
    pub per_scenario: Vec<(String, u64, u64)>,
    pub samples: Vec<String>,
    pub known_hits: Vec<(String, String)>,
}

struct Task {
    scen: usize,
    prefix: Vec<u32>,
    /// number of leading choices that are fixed for this task
    fixed: usize,
}

struct Queue {
    tasks: VecDeque<Task>,
    idle: usize,
    done: bool,
}

pub struct Slot {
    pub started: Mutex<Option<(Instant, usize, Ch)>>,
}

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// last panic seen on any thread (worker threads of the controlled pool re-throw elsewhere)
static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("{} [{}]", msg, loc);
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = Some(full.clone()));
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = Some(full);
        }
    }));
}

/// Runs one execution.
fn execute(s: &Scenario, ch: &Ch) -> Res {
    let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = None);
    rayon_core::mc::set_inline_threads(1);
    match catch_unwind(AssertUnwindSafe(|| (s.run)(ch))) {
        Ok(r) => r,
        Err(p) => {
            let m = PANIC_MSG
                .try_with(|p| p.borrow_mut().take())
                .ok()
                .flatten()
                .or_else(|| LAST_PANIC.lock().ok().and_then(|l| l.clone()))
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            // the key keeps the place, not the line number
            let key = m.rsplit('[').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            fail(format!("panic:{}", key), format!("panic: {}", m))
        }
    }
}

/// Turns a panic inside `f` into an error value (used where a scenario wants to go on).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.try_with(|p| p.borrow_mut().take()).ok().flatten().unwrap_or_else(|| "panic".into())),
    }
}

pub fn replay(s: &Scenario, choices: &[u32]) -> (Res, Vec<String>, Option<String>) {
    let ch = Ch::new(choices.to_vec(), s.budget, true);
    let r = execute(s, &ch);
    let mut i = ch.lock();
    let d = i.diverged.take();
    (r, i.notes.take().unwrap_or_default(), d)
}

pub struct Config {
    pub threads: usize,
    pub deadline: Instant,
    pub hang: Duration,
    pub known: Vec<String>,
    /// survey mode: list one failure per scenario and key instead of stopping at the first
    pub collect: bool,
    /// file with one 4 KiB slot per thread holding the prefix being executed (crash forensics)
    pub slots: Option<std::fs::File>,
    /// asked before every execution: give up?
    pub give_up: fn() -> bool,
    /// this process explores the i-th of n shares of all the first two choices, in turns
    pub share: Option<(u32, u32)>,
    /// the first slot of this process
    pub slot0: usize,
}

fn write_slot(f: &Option<std::fs::File>, t: usize, scen: usize, prefix: &[u32]) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = f {
        let mut b = Vec::with_capacity(12 + prefix.len() * 4);
        b.extend_from_slice(&1u32.to_le_bytes());
        b.extend_from_slice(&(scen as u32).to_le_bytes());
        let n = prefix.len().min(1000);
        b.extend_from_slice(&(n as u32).to_le_bytes());
        for p in &prefix[..n] {
            b.extend_from_slice(&p.to_le_bytes());
        }
        let _ = f.write_all_at(&b, t as u64 * 4096);
    }
}

pub fn read_slots(bytes: &[u8]) -> Vec<(usize, Vec<u32>)> {
    let g = |o: usize| -> u32 { u32::from_le_bytes([bytes[o], bytes[o + 1], bytes[o + 2], bytes[o + 3]]) };
    let mut v = vec![];
    let mut o = 0;
    while o + 12 <= bytes.len() {
        if g(o) == 1 {
            let n = g(o + 8) as usize;
            if o + 12 + 4 * n <= bytes.len() {
                v.push((g(o + 4) as usize, (0..n).map(|k| g(o + 12 + 4 * k)).collect()));
            }
        }
        o += 4096;
    }
    v
}

pub fn explore(scens: &[Scenario], cfg: &Config) -> (Stats, Option<Violation>) {
    let queue = Mutex::new(Queue { tasks: VecDeque::new(), idle: 0, done: false });
    let cv = Condvar::new();
    {
        let mut q = queue.lock().unwrap();
        for i in (0..scens.len()).rev() {
            q.tasks.push_back(Task { scen: i, prefix: vec![], fixed: 0 });
        }
    }
    let hungry = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let violation: Mutex<Option<Violation>> = Mutex::new(None);
    let total: Mutex<(Stats, HashSet<u64>)> = Mutex::new(Default::default());
    let per: Vec<(AtomicU64, AtomicU64)> = scens.iter().map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let slots: Vec<Slot> = (0..cfg.threads).map(|_| Slot { started: Mutex::new(None) }).collect();
    let finished = AtomicBool::new(false);
    let running = AtomicUsize::new(cfg.threads);

    std::thread::scope(|sc| {
        // watchdog
        sc.spawn(|| {
            while !finished.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                for s in &slots {
                    let hung = {
                        let g = s.started.lock().unwrap_or_else(|e| e.into_inner());
                        match &*g {
                            Some((t, scen, ch)) if t.elapsed() > cfg.hang => Some((*scen, ch.choices())),
                            _ => None,
                        }
                    };
                    if let Some((scen, choices)) = hung {
                        *violation.lock().unwrap() = Some(Violation {
                            scenario: scens[scen].name.clone(),
                            choices,
                            fail: Fail { key: "hang".into(), msg: format!("execution did not terminate within {:?}", cfg.hang) },
                            notes: vec![],
                            reproduced: false,
                        });
                        HANG_EXIT.lock().unwrap().take().map(|f| f(violation.lock().unwrap().clone().unwrap()));
                        std::process::exit(3);
                    }
                }
            }
        });
        for t in 0..cfg.threads {
            let (queue, cv, hungry, stop, capped, violation, total, per, slots, finished, running) =
                (&queue, &cv, &hungry, &stop, &capped, &violation, &total, &per, &slots, &finished, &running);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    let mut outs: HashSet<u64> = HashSet::new();
                    'outer: loop {
                        let task = {
                            let mut q = queue.lock().unwrap();
                            loop {
                                if stop.load(SeqCst) || q.done {
                                    break 'outer;
                                }
                                if let Some(t) = q.tasks.pop_back() {
                                    break t;
                                }
                                q.idle += 1;
                                if q.idle == cfg.threads {
                                    q.done = true;
                                    cv.notify_all();
                                    break 'outer;
                                }
                                hungry.fetch_add(1, SeqCst);
                                q = cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                                hungry.fetch_sub(1, SeqCst);
                                q.idle -= 1;
                            }
                        };
                        let s = &scens[task.scen];
                        let mut prefix: Vec<(u32, u32)> = task.prefix.iter().map(|c| (*c, c + 1)).collect();
                        let mut fixed = task.fixed;
                        let begun = Instant::now();
                        loop {
                            if stop.load(SeqCst) {
                                break 'outer;
                            }
                            if Instant::now() > cfg.deadline || (cfg.give_up)() {
                                capped.store(true, SeqCst);
                                stop.store(true, SeqCst);
                                cv.notify_all();
                                break 'outer;
                            }
                            let plen = prefix.len();
                            let taken: Vec<u32> = prefix.iter().map(|p| p.0).collect();
                            write_slot(&cfg.slots, cfg.slot0 + t, task.scen, &taken);
                            let ch = Ch::new(taken, s.budget, false);
                            *slots[t].started.lock().unwrap() = Some((Instant::now(), task.scen, ch.clone()));
                            let r = execute(s, &ch);
                            *slots[t].started.lock().unwrap() = None;
                            let mut i = ch.lock();
                            let mut trace = std::mem::take(&mut i.trace);
                            if trace.len() < plen || i.diverged.is_some() {
                                // The choices are not those of the execution before (something was
                                // initialised on first use, say). What this execution did was checked like
                                // any other; the exploration goes on behind the prefix.
                                st.diverged += 1;
                                if r.is_ok() {
                                    trace = prefix.clone();
                                }
                            }
                            st.executions += 1;
                            st.steps += i.steps;
                            st.validated += i.validated;
                            st.choice_points += trace.len() as u64;
                            st.max_depth = st.max_depth.max(trace.len());
                            // tree nodes seen for the first time by this execution
                            let newn = (trace.len() + 1).saturating_sub(plen);
                            st.states += newn as u64;
                            per[task.scen].0.fetch_add(1, SeqCst);
                            per[task.scen].1.fetch_add(newn as u64, SeqCst);
                            if outs.len() < 100_000 {
                                outs.insert(i.outcome);
                            }
                            drop(i);
                            if st.samples.len() < 1 && trace.len() > 1 && st.executions > 3 {
                                let c: Vec<u32> = trace.iter().map(|t| t.0).collect();
                                let (_r, notes, _) = replay(s, &c);
                                st.samples.push(format!("{} choices={:?} {}", s.name, &c[..c.len().min(60)], notes.iter().take(12).cloned().collect::<Vec<_>>().join("; ")));
                            }
                            if let Err(f) = r {
                                let choices: Vec<u32> = trace.iter().map(|t| t.0).collect();
                                if cfg.known.contains(&f.key) || cfg.collect {
                                    let f = if cfg.collect { Fail { key: format!("{} / {}", s.name, f.key), msg: format!("{} {:?}", f.msg, choices) } } else { f };
                                    if !st.known_hits.iter().any(|k| k.0 == f.key) {
                                        st.known_hits.push((f.key, f.msg));
                                    }
                                } else {
                                    let mut v = violation.lock().unwrap();
                                    if v.is_none() {
                                        let (r1, notes, _) = replay(s, &choices);
                                        let (r2, _, _) = replay(s, &choices);
                                        let rep = matches!((&r1, &r2), (Err(a), Err(b)) if a.msg == b.msg);
                                        *v = Some(Violation { scenario: s.name.clone(), choices, fail: f, notes, reproduced: rep });
                                    }
                                    stop.store(true, SeqCst);
                                    cv.notify_all();
                                    break 'outer;
                                }
                            }
                            if let Some((mine, of)) = cfg.share {
                                // each of the first two choices is a task of its own; after some time it is another one's turn
                                let mut q = queue.lock().unwrap();
                                let mut split = |k: usize| {
                                    for alt in trace[k].0 + 1..trace[k].1 {
                                        let mut p: Vec<u32> = trace[..k].iter().map(|t| t.0).collect();
                                        p.push(alt);
                                        if k != 1 || (p[0] + p[1]) % of == mine {
                                            q.tasks.push_front(Task { scen: task.scen, fixed: k + 1, prefix: p });
                                        }
                                    }
                                };
                                while fixed < trace.len().min(2) {
                                    split(fixed);
                                    fixed += 1;
                                }
                                if trace.len() < 2 || (trace[0].0 + trace[1].0) % of != mine {
                                    continue 'outer;
                                }
                                if begun.elapsed() > Duration::from_millis(500) {
                                    if let Some(k) = (fixed..trace.len()).find(|k| trace[*k].0 + 1 < trace[*k].1) {
                                        split(k);
                                        let next = (k + 1..trace.len()).rev().find(|k| trace[*k].0 + 1 < trace[*k].1);
                                        if let Some(d) = next {
                                            let mut p: Vec<u32> = trace[..=d].iter().map(|t| t.0).collect();
                                            p[d] += 1;
                                            q.tasks.push_front(Task { scen: task.scen, fixed: k + 1, prefix: p });
                                        }
                                    }
                                    continue 'outer;
                                }
                            }
                            // give work away: alternatives at the shallowest open choice point
                            if hungry.load(SeqCst) > 0 {
                                for k in fixed..trace.len() {
                                    let (c, n) = trace[k];
                                    if c + 1 < n {
                                        let mut q = queue.lock().unwrap();
                                        for alt in (c + 1..n).rev() {
                                            let mut p: Vec<u32> = trace[..k].iter().map(|t| t.0).collect();
                                            p.push(alt);
                                            q.tasks.push_back(Task { scen: task.scen, fixed: p.len(), prefix: p });
                                        }
                                        cv.notify_all();
                                        fixed = k + 1;
                                        break;
                                    }
                                }
                            }
                            // next leaf
                            loop {
                                if trace.len() <= fixed {
                                    continue 'outer;
                                }
                                let (c, n) = *trace.last().unwrap();
                                if c + 1 < n {
                                    break;
                                }
                                trace.pop();
                            }
                            prefix = trace;
                            prefix.last_mut().unwrap().0 += 1;
                        }
                    }
                    let mut g = total.lock().unwrap();
                    let a = &mut g.0;
                    a.executions += st.executions;
                    a.states += st.states;
                    a.choice_points += st.choice_points;
                    a.steps += st.steps;
                    a.diverged += st.diverged;
                    a.validated += st.validated;
                    a.max_depth = a.max_depth.max(st.max_depth);
                    a.samples.extend(st.samples);
                    for k in st.known_hits {
                        if !a.known_hits.iter().any(|x| x.0 == k.0) {
                            a.known_hits.push(k);
                        }
                    }
                    g.1.extend(outs);
                    if running.fetch_sub(1, SeqCst) == 1 {
                        finished.store(true, SeqCst);
                    }
                })
                .unwrap();
        }
    });
    let (mut st, outs) = total.into_inner().unwrap();
    st.outcomes = outs.len() as u64;
    st.capped = capped.load(SeqCst);
    st.per_scenario = scens.iter().zip(&per).map(|(s, p)| (s.name.clone(), p.0.load(SeqCst), p.1.load(SeqCst))).collect();
    (st, violation.into_inner().unwrap())
}

/// What to do when an execution hangs (the hung thread cannot be stopped, so the process reports
/// and ends).
pub static HANG_EXIT: Mutex<Option<Box<dyn FnOnce(Violation) + Send>>> = Mutex::new(None);
