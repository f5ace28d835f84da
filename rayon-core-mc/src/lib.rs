//! A stand-in for `rayon-core` (same public API as far as `rayon` and user crates need it)
//! whose scheduler is *controlled*: inside `mc::run` all worker threads are serialised by a
//! baton and every scheduling decision (which enabled thread continues, which deque is stolen
//! from) is a call of a chooser supplied by the model checker.
//!
//! The scheduling model is rayon's: one deque per worker (owner pushes/pops at the back, thieves
//! take from the front), a global injector for calls from outside the pool, `join` pushes the
//! second closure, runs the first, then pops the second back or, when it was stolen, helps with
//! other work until it is finished.
//!
//! Outside `mc::run` everything executes inline and sequentially.

use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

// ------------------------------------------------------------------------------------------
// Jobs
// ------------------------------------------------------------------------------------------

#[derive(Copy, Clone)]
struct JobRef {
    /// made by code whose visible operations count
    vis: bool,
    ptr: *const (),
    exec: unsafe fn(*const (), bool),
}
unsafe impl Send for JobRef {}
impl JobRef {
    fn run(self, migrated: bool) {
        let old = OPS.with(|c| c.replace(self.vis));
        unsafe { (self.exec)(self.ptr, migrated) };
        OPS.with(|c| c.set(old));
    }
}

struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    result: UnsafeCell<Option<Result<R, Box<dyn Any + Send>>>>,
    latch: AtomicBool,
}

impl<F: FnOnce(bool) -> R, R> StackJob<F, R> {
    fn new(f: F) -> Self {
        StackJob { f: UnsafeCell::new(Some(f)), result: UnsafeCell::new(None), latch: AtomicBool::new(false) }
    }
    fn as_ref(&self) -> JobRef {
        unsafe fn exec<F: FnOnce(bool) -> R, R>(p: *const (), migrated: bool) {
            let this = &*(p as *const StackJob<F, R>);
            let f = (*this.f.get()).take().expect("job executed twice");
            let r = catch_unwind(AssertUnwindSafe(|| f(migrated)));
            *this.result.get() = Some(r);
            set(&this.latch);
        }
        JobRef { vis: OPS.with(|c| c.get()), ptr: self as *const _ as *const (), exec: exec::<F, R> }
    }
    fn take_fn(&self) -> F {
        unsafe { (*self.f.get()).take().expect("job already taken") }
    }
    fn into_result(self) -> Result<R, Box<dyn Any + Send>> {
        self.result.into_inner().expect("job not finished")
    }
}

fn heap_job<'a, F: FnOnce() + 'a>(f: F) -> JobRef {
    unsafe fn exec<F: FnOnce()>(p: *const (), _m: bool) {
        let f = Box::from_raw(p as *mut F);
        f();
    }
    JobRef { vis: OPS.with(|c| c.get()), ptr: Box::into_raw(Box::new(f)) as *const (), exec: exec::<F> }
}

// ------------------------------------------------------------------------------------------
// Controlled scheduler
// ------------------------------------------------------------------------------------------

#[derive(Copy, Clone)]
enum Status {
    /// executing user code (or preempted inside it)
    Running,
    /// a worker without a job
    Idle,
    /// waits for a latch; workers help with other jobs meanwhile
    Wait(*const AtomicBool),
    WaitCount(*const AtomicUsize),
    /// blocked in the operating system (a lock, a condition, ...) while the word has this value
    Futex(*const AtomicU32, u32),
    Dead,
}

/// Called with the number of alternatives (>= 2) and a label, returns the index taken.
pub type Chooser = Box<dyn FnMut(usize, &'static str) -> usize + Send>;

struct Inner {
    deques: Vec<VecDeque<JobRef>>, // by thread id, index 0 (main) unused
    injector: VecDeque<JobRef>,
    status: Vec<Status>,
    current: usize,
    shutdown: bool,
    deadlock: bool,
    choose: Chooser,
    switches: u64,
    steals: u64,
}
unsafe impl Send for Inner {}

struct Exec {
    inner: Mutex<Inner>,
    cvs: Vec<Condvar>,
    workers: usize,
    /// `mc::alloc_point` is a scheduling point
    alloc: bool,
    /// `mc::op_point` is a scheduling point
    ops: bool,
}

thread_local! {
    static CURRENT: Cell<*const (Arc<Exec>, usize)> = const { Cell::new(std::ptr::null()) };
    static IN_SCHED: Cell<bool> = const { Cell::new(false) };
    /// visible operations of this thread are scheduling points
    static OPS: Cell<bool> = const { Cell::new(false) };
    /// the number of workers announced when everything runs inline (it decides how rayon divides)
    static INLINE: Cell<usize> = const { Cell::new(2) };
}

/// The scheduler of this thread lives as long as the thread has one. (Not inlined, nor are the
/// functions on latches: code that is instrumented must contain none of the scheduler's own atomics.)
#[inline(never)]
fn cur() -> Option<(&'static Exec, usize)> {
    let p = CURRENT.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() {
        None
    } else {
        unsafe { Some((&*Arc::as_ptr(&(*p).0), (*p).1)) }
    }
}
#[inline(never)]
fn is_set(latch: &AtomicBool) -> bool {
    latch.load(SeqCst)
}
#[inline(never)]
fn set(latch: &AtomicBool) {
    latch.store(true, SeqCst)
}
#[inline(never)]
fn count(c: &AtomicUsize, up: bool) {
    if up {
        c.fetch_add(1, SeqCst);
    } else {
        c.fetch_sub(1, SeqCst);
    }
}

/// The code of the scheduler itself has no scheduling points.
struct Guard(bool);
impl Guard {
    fn new() -> Guard {
        Guard(IN_SCHED.with(|c| c.replace(true)))
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        IN_SCHED.with(|c| c.set(self.0));
    }
}

impl Exec {
    /// To be called with a `Guard` that outlives the result.
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    #[inline(never)]
    fn has_local(&self, me: usize) -> bool {
        let _g = Guard::new();
        let i = self.lock();
        !i.deques[me].is_empty()
    }
    #[inline(never)]
    fn over(&self) -> bool {
        let _g = Guard::new();
        let i = self.lock();
        i.shutdown
    }

    fn work_available(i: &Inner) -> bool {
        !i.injector.is_empty() || i.deques.iter().any(|d| !d.is_empty())
    }

    fn enabled(i: &Inner, t: usize) -> bool {
        match i.status[t] {
            Status::Running => true,
            Status::Idle => t != 0 && Self::work_available(i),
            Status::Wait(l) => (unsafe { (*l).load(SeqCst) }) || (t != 0 && Self::work_available(i)),
            Status::WaitCount(c) => (unsafe { (*c).load(SeqCst) == 0 }) || (t != 0 && Self::work_available(i)),
            Status::Futex(a, v) => unsafe { (*a).load(SeqCst) != v },
            Status::Dead => false,
        }
    }

    /// Gives the baton to a thread chosen among the enabled ones; returns when `me` has it again.
    #[inline(never)]
    fn schedule(&self, me: usize, label: &'static str) {
        let _g = Guard::new();
        let mut i = self.lock();
        debug_assert_eq!(i.current, me);
        let mut en: Vec<usize> = Vec::with_capacity(8);
        let mut patience = 20_000;
        loop {
            if Self::enabled(&i, me) {
                en.push(me);
            }
            for t in 0..i.status.len() {
                if t != me && Self::enabled(&i, t) {
                    en.push(t);
                }
            }
            // a lock may be held by a thread that is not ours (another exploration)
            if en.is_empty() && patience > 0 && i.status.iter().any(|s| matches!(s, Status::Futex(..))) {
                patience -= 1;
                drop(i);
                std::thread::sleep(std::time::Duration::from_micros(100));
                i = self.lock();
                continue;
            }
            break;
        }
        if en.is_empty() {
            i.deadlock = true;
            // wake main, it reports
            i.current = 0;
            if me == 0 {
                drop(i);
                drop(_g);
                std::panic::panic_any("DEADLOCK: no runnable thread");
            }
            self.cvs[0].notify_all();
        } else {
            let k = if en.len() == 1 { 0 } else { (i.choose)(en.len(), label) };
            let t = en[k];
            if t == me {
                return;
            }
            i.switches += 1;
            i.current = t;
            self.cvs[t].notify_all();
        }
        while i.current != me {
            if i.shutdown && me != 0 {
                return;
            }
            i = self.cvs[me].wait(i).unwrap_or_else(|e| e.into_inner());
        }
        if me == 0 && i.deadlock {
            drop(i);
            drop(_g);
            std::panic::panic_any("DEADLOCK: no runnable thread");
        }
    }

    #[inline(never)]
    fn set_status(&self, me: usize, s: Status) {
        let _g = Guard::new();
        self.lock().status[me] = s;
    }

    /// Picks work for an idle/waiting worker that holds the baton.
    #[inline(never)]
    fn find_work(&self, me: usize) -> Option<(JobRef, bool)> {
        let _g = Guard::new();
        let mut i = self.lock();
        if let Some(j) = i.deques[me].pop_back() {
            return Some((j, false));
        }
        let mut src: Vec<usize> = Vec::with_capacity(8);
        for t in 1..i.deques.len() {
            if t != me && !i.deques[t].is_empty() {
                src.push(t);
            }
        }
        if !i.injector.is_empty() {
            src.push(0);
        }
        if src.is_empty() {
            return None;
        }
        let k = if src.len() == 1 { 0 } else { (i.choose)(src.len(), "steal") };
        i.steals += 1;
        if src[k] == 0 {
            i.injector.pop_front().map(|j| (j, true))
        } else {
            i.deques[src[k]].pop_front().map(|j| (j, true))
        }
    }

    #[inline(never)]
    fn wait_latch(&self, me: usize, latch: &AtomicBool) {
        while !latch.load(SeqCst) {
            self.set_status(me, Status::Wait(latch));
            self.schedule(me, "wait");
            if self.over() {
                return;
            }
            self.set_status(me, Status::Running);
            if latch.load(SeqCst) {
                break;
            }
            if me != 0 {
                if let Some((j, m)) = self.find_work(me) {
                    j.run(m);
                }
            }
        }
    }

    #[inline(never)]
    fn wait_count(&self, me: usize, cnt: &AtomicUsize) {
        while cnt.load(SeqCst) != 0 {
            self.set_status(me, Status::WaitCount(cnt));
            self.schedule(me, "wait");
            if self.over() {
                return;
            }
            self.set_status(me, Status::Running);
            if cnt.load(SeqCst) == 0 {
                break;
            }
            if me != 0 {
                if let Some((j, m)) = self.find_work(me) {
                    j.run(m);
                }
            }
        }
    }

    #[inline(never)]
    fn push(&self, me: usize, j: JobRef) {
        let _g = Guard::new();
        let mut i = self.lock();
        if me == 0 {
            i.injector.push_back(j);
        } else {
            i.deques[me].push_back(j);
        }
    }

    #[inline(never)]
    fn pop_local(&self, me: usize) -> Option<JobRef> {
        let _g = Guard::new();
        let mut i = self.lock();
        i.deques[me].pop_back()
    }
}

fn worker_main(ex: Arc<Exec>, me: usize) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CURRENT.with(|c| c.set(std::ptr::null()));
        }
    }
    let pair = (ex.clone(), me);
    let _reset = Reset;
    CURRENT.with(|c| c.set(&pair));
    // wait for the baton for the first time
    {
        let _g = Guard::new();
        let mut i = ex.lock();
        while i.current != me && !i.shutdown {
            i = ex.cvs[me].wait(i).unwrap_or_else(|e| e.into_inner());
        }
        if i.shutdown {
            return;
        }
    }
    loop {
        if ex.over() {
            break;
        }
        if let Some((j, m)) = ex.find_work(me) {
            ex.set_status(me, Status::Running);
            j.run(m);
        }
        ex.set_status(me, Status::Idle);
        ex.schedule(me, "idle");
    }
}

#[cfg(feature = "visible")]
pub mod visible;

/// All blocking of the standard library (locks, conditions, once, park) ends up in futex(2), called
/// by `libc::syscall`: on a controlled thread it becomes a state of the scheduler, so that a thread
/// that is preempted while it holds a lock blocks only those that want the lock.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a1: i64, a2: i64, a3: i64, a4: i64, a5: i64, a6: i64) -> i64 {
    const FUTEX: i64 = 202;
    if num == FUTEX && !IN_SCHED.try_with(|c| c.get()).unwrap_or(true) {
        let p = CURRENT.try_with(|c| c.get()).unwrap_or(std::ptr::null());
        if !p.is_null() && !(*p).0.over() {
            let (ex, me) = (&(*p).0, (*p).1);
            match a2 & 127 {
                // FUTEX_WAIT, FUTEX_WAIT_BITSET
                0 | 9 => {
                    let word = a1 as *const AtomicU32;
                    if (*word).load(SeqCst) == a3 as u32 {
                        // with a time limit: it may pass at once
                        if a4 == 0 {
                            ex.set_status(me, Status::Futex(word, a3 as u32));
                        }
                        ex.schedule(me, "wait");
                        ex.set_status(me, Status::Running);
                    }
                    return 0;
                }
                // FUTEX_WAKE: whoever waits sees the word change
                1 | 10 => mc::op_point(false),
                _ => {}
            }
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a1, in("rsi") a2, in("rdx") a3, in("r10") a4, in("r8") a5, in("r9") a6, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        extern "C" {
            fn __errno_location() -> *mut i32;
        }
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// Model checking interface.
pub mod mc {
    use super::*;

    /// Outside of `run`, what `current_num_threads` says on this thread.
    pub fn set_inline_threads(n: usize) {
        INLINE.with(|c| c.set(n));
    }

    #[derive(Default, Debug, Clone, Copy)]
    pub struct Stats {
        pub switches: u64,
        pub steals: u64,
    }

    /// Runs `f` as a thread outside of a pool of `workers` controlled worker threads.
    pub fn run<R>(workers: usize, choose: Chooser, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Stats) {
        run_with(workers, choose, false, false, f)
    }

    /// As `run`; with `alloc`, every allocation announced by `alloc_point` is a scheduling point; with
    /// `ops`, every visible operation announced by `op_point`.
    pub fn run_with<R>(workers: usize, choose: Chooser, alloc: bool, ops: bool, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Stats) {
        assert!(workers >= 1);
        assert!(cur().is_none(), "nested mc::run");
        let ex = Arc::new(Exec {
            inner: Mutex::new(Inner {
                deques: (0..=workers).map(|_| VecDeque::new()).collect(),
                injector: VecDeque::new(),
                status: (0..=workers).map(|t| if t == 0 { Status::Running } else { Status::Idle }).collect(),
                current: 0,
                shutdown: false,
                deadlock: false,
                choose,
                switches: 0,
                steals: 0,
            }),
            cvs: (0..=workers).map(|_| Condvar::new()).collect(),
            workers,
            alloc,
            ops,
        });
        let handles: Vec<_> = (1..=workers)
            .map(|t| {
                let ex = ex.clone();
                std::thread::Builder::new().stack_size(1 << 20).spawn(move || worker_main(ex, t)).unwrap()
            })
            .collect();
        let pair = (ex.clone(), 0usize);
        CURRENT.with(|c| c.set(&pair));
        let r = catch_unwind(AssertUnwindSafe(f));
        CURRENT.with(|c| c.set(std::ptr::null()));
        let deadlock;
        let stats;
        {
            let mut i = ex.lock();
            deadlock = i.deadlock;
            stats = Stats { switches: i.switches, steals: i.steals };
            if !deadlock {
                i.shutdown = true;
                i.status[0] = Status::Dead;
                for c in &ex.cvs {
                    c.notify_all();
                }
            }
        }
        if !deadlock {
            for h in handles {
                let _ = h.join();
            }
        } // after a deadlock the workers hold references to dead stack frames: leave them parked
        (r, stats)
    }

    /// To be called by the global allocator.
    pub fn alloc_point() {
        let p = CURRENT.try_with(|c| c.get()).unwrap_or(std::ptr::null());
        if !p.is_null() && unsafe { (&(*p).0).alloc } && !std::thread::panicking() {
            point("alloc");
        }
    }

    /// To be called before every operation other threads can see.
    pub fn op_point(is_static: bool) {
        let p = CURRENT.try_with(|c| c.get()).unwrap_or(std::ptr::null());
        if !p.is_null() && OPS.try_with(|c| c.get()).unwrap_or(false) && !IN_SCHED.with(|c| c.get()) && unsafe { (&(*p).0).ops } && !std::thread::panicking() {
            SEEN[is_static as usize].fetch_add(1, SeqCst);
            point("op");
        }
    }
    static SEEN: [AtomicUsize; 2] = [const { AtomicUsize::new(0) }; 2];
    /// Number of visible operations so far: on other memory, on static memory.
    pub fn ops_seen() -> [usize; 2] {
        [SEEN[0].load(SeqCst), SEEN[1].load(SeqCst)]
    }

    /// Runs `f` (a call of the code under test) with its visible operations as scheduling points.
    pub fn visible<T>(f: impl FnOnce() -> T) -> T {
        set_visible(true, f)
    }
    /// Runs `f` (called back by the code under test) without.
    pub fn invisible<T>(f: impl FnOnce() -> T) -> T {
        set_visible(false, f)
    }
    fn set_visible<T>(v: bool, f: impl FnOnce() -> T) -> T {
        struct Restore(bool);
        impl Drop for Restore {
            fn drop(&mut self) {
                OPS.with(|c| c.set(self.0));
            }
        }
        let _r = Restore(OPS.with(|c| c.replace(v)));
        f()
    }

    /// Runs `f` (code of the harness) without preemptions.
    pub fn atomic<T>(f: impl FnOnce() -> T) -> T {
        let old = IN_SCHED.with(|c| c.replace(true));
        let r = f();
        IN_SCHED.with(|c| c.set(old));
        r
    }

    /// True when the calling thread is one of the controlled threads.
    pub fn active() -> bool {
        cur().is_some()
    }

    /// A possible preemption inside user code (I/O call, allocation, ...). Only does something on
    /// controlled threads. `label` lets the chooser charge it against a preemption bound.
    pub fn point(label: &'static str) {
        if IN_SCHED.try_with(|c| c.get()).unwrap_or(true) {
            return;
        }
        if let Some((ex, me)) = cur() {
            ex.schedule(me, label);
        }
    }
}

// ------------------------------------------------------------------------------------------
// Public API of rayon-core
// ------------------------------------------------------------------------------------------

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

/// Executes `f` on a worker: directly if already on one, through the injector otherwise.
fn in_worker<R: Send>(f: impl FnOnce(&'static Exec, usize, bool) -> R + Send) -> R {
    let (ex, me) = cur().expect("controlled");
    if me != 0 {
        return f(ex, me, false);
    }
    let job = StackJob::new(|_m: bool| {
        let (ex, me) = cur().expect("controlled");
        f(ex, me, true)
    });
    ex.push(0, job.as_ref());
    ex.wait_latch(0, &job.latch);
    match job.into_result() {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if cur().is_none() {
        let a = oper_a(FnContext::new(false));
        let b = oper_b(FnContext::new(false));
        return (a, b);
    }
    in_worker(move |ex, me, injected| {
        let job_b = StackJob::new(|m: bool| oper_b(FnContext::new(m)));
        let ref_b = job_b.as_ref();
        ex.push(me, ref_b);
        ex.schedule(me, "join");
        let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(injected))));
        ex.schedule(me, "join-pop");
        let mut rb: Option<Result<RB, Box<dyn Any + Send>>> = None;
        while !is_set(&job_b.latch) {
            match ex.pop_local(me) {
                Some(j) if j.ptr == ref_b.ptr => {
                    let f = job_b.take_fn();
                    rb = Some(catch_unwind(AssertUnwindSafe(|| f(false))));
                    break;
                }
                Some(j) => j.run(false),
                None => {
                    ex.wait_latch(me, &job_b.latch);
                }
            }
        }
        let rb = match rb {
            Some(r) => r,
            None => job_b.into_result(),
        };
        let ra = match ra {
            Ok(v) => v,
            Err(p) => resume_unwind(p),
        };
        match rb {
            Ok(v) => (ra, v),
            Err(p) => resume_unwind(p),
        }
    })
}

struct ScopeBase {
    pending: AtomicUsize,
    panic: Mutex<Option<Box<dyn Any + Send>>>,
}
impl ScopeBase {
    fn new() -> Self {
        ScopeBase { pending: AtomicUsize::new(0), panic: Mutex::new(None) }
    }
    fn run(&self, f: impl FnOnce()) {
        if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
            self.keep(p);
        }
    }
    #[inline(never)]
    fn keep(&self, p: Box<dyn Any + Send>) {
        let mut s = self.panic.lock().unwrap();
        if s.is_none() {
            *s = Some(p);
        }
    }
    #[inline(never)]
    fn finish(&self) {
        if let Some((ex, me)) = cur() {
            ex.wait_count(me, &self.pending);
        }
        if let Some(p) = self.panic.lock().unwrap().take() {
            resume_unwind(p);
        }
    }
}

macro_rules! scope_type {
    ($S:ident, $spawn:ident, $scope:ident, $in_place:ident) => {
        pub struct $S<'scope> {
            base: ScopeBase,
            marker: PhantomData<Box<dyn FnOnce(&$S<'scope>) + Send + Sync + 'scope>>,
        }
        impl<'scope> fmt::Debug for $S<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($S))
            }
        }
        impl<'scope> $S<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$S<'scope>) + Send + 'scope,
            {
                match cur() {
                    None => self.base.run(|| body(self)),
                    Some((ex, me)) => {
                        count(&self.base.pending, true);
                        let addr = self as *const $S<'scope> as usize;
                        let j = heap_job(move || {
                            let s = unsafe { &*(addr as *const $S<'scope>) };
                            s.base.run(|| body(s));
                            count(&s.base.pending, false);
                        });
                        ex.push(me, j);
                        if me != 0 {
                            ex.schedule(me, "spawn");
                        }
                    }
                }
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$S<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                for index in 0..current_num_threads() {
                    self.base.run(|| body(self, BroadcastContext { index, _m: PhantomData }));
                }
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$S<'scope>) -> R + Send,
            R: Send,
        {
            if cur().is_none() {
                return $in_place(op);
            }
            in_worker(|_, _, _| $in_place(op))
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$S<'scope>) -> R,
        {
            let s = $S { base: ScopeBase::new(), marker: PhantomData };
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            s.base.finish();
            match r {
                Ok(v) => v,
                Err(p) => resume_unwind(p),
            }
        }
    };
}
scope_type!(Scope, spawn, scope, in_place_scope);
scope_type!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo);

pub fn spawn<F: FnOnce() + Send + 'static>(func: F) {
    match cur() {
        None => func(),
        Some((ex, me)) => {
            ex.push(me, heap_job(func));
            if me != 0 {
                ex.schedule(me, "spawn");
            }
        }
    }
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(func: F) {
    spawn(func)
}

pub struct BroadcastContext<'a> {
    index: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..current_num_threads()).map(|index| op(BroadcastContext { index, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(|c| op(c));
}

pub fn current_num_threads() -> usize {
    cur().map(|(e, _)| e.workers).unwrap_or_else(|| INLINE.with(|c| c.get()))
}
pub fn max_num_threads() -> usize {
    1 << 16
}
pub fn current_thread_index() -> Option<usize> {
    cur().and_then(|(_, me)| me.checked_sub(1))
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    cur().and_then(|(e, me)| if me == 0 { None } else { Some(e.has_local(me)) })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    let (ex, me) = cur()?;
    if me == 0 {
        return None;
    }
    match ex.find_work(me) {
        Some((j, m)) => {
            j.run(m);
            Some(Yield::Executed)
        }
        None => Some(Yield::Idle),
    }
}
pub fn yield_local() -> Option<Yield> {
    let (ex, me) = cur()?;
    if me == 0 {
        return None;
    }
    match ex.pop_local(me) {
        Some(j) => {
            j.run(false);
            Some(Yield::Executed)
        }
        None => Some(Yield::Idle),
    }
}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("the global thread pool has already been initialized")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

/// All pools share the controlled scheduler of the calling thread.
#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        if cur().is_none() {
            return op();
        }
        in_worker(|_, _, _| op())
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        scope_fifo(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
}

#[derive(Debug, Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder(())
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
