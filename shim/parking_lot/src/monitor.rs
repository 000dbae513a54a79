//! What the monitors see, and the deterministic scheduler.
use crate::Kind;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicU32, Ordering};
use std::sync::{Arc, Condvar, Mutex};

/// Payload of the panic raised when a solo thread would block for ever.
#[derive(Debug)]
pub struct SelfDeadlock(pub String);
/// Payload of the panic that unwinds threads of a torn-down scheduled run.
pub struct RunAborted;

#[derive(Default, Clone, Debug)]
pub struct Counters {
    pub acquires: u64,
    pub releases: u64,
}

thread_local! {
    static SOLO: Cell<bool> = const { Cell::new(false) };
    static HELD: RefCell<Vec<(usize, Kind)>> = const { RefCell::new(Vec::new()) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static CTX: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    static JRNG: Cell<u64> = const { Cell::new(0) };
}
static JITTER: AtomicU32 = AtomicU32::new(0);
static CONTENDED: AtomicU64 = AtomicU64::new(0);

pub fn set_solo(on: bool) {
    SOLO.with(|s| s.set(on))
}
pub fn is_solo() -> bool {
    SOLO.with(|s| s.get())
}
thread_local! {
    static NHELD: Cell<isize> = const { Cell::new(0) };
}
#[cfg(miri)]
pub(crate) fn held_add(d: isize) {
    let _ = NHELD.try_with(|h| h.set(h.get() + d));
}
/// Locks this thread holds now.
pub fn held() -> usize {
    if cfg!(miri) {
        return NHELD.with(|h| h.get()) as usize;
    }
    HELD.with(|h| h.borrow().len())
}
/// Forget what this thread holds (after a caught failure whose guards were leaked).
pub fn reset_held() {
    NHELD.with(|h| h.set(0));
    HELD.with(|h| h.borrow_mut().clear())
}
/// Lock acquisitions observed on this thread so far.
pub fn acquires() -> u64 {
    COUNT.with(|c| c.get())
}
/// Waits for a lock observed in plain mode, all threads.
pub fn contended() -> u64 {
    CONTENDED.load(Ordering::Relaxed)
}
pub(crate) fn note_contended() {
    CONTENDED.fetch_add(1, Ordering::Relaxed);
}
/// Plain mode: before/after a lock operation, spin or yield with probability n/256.
pub fn set_jitter(n: u32) {
    JITTER.store(n, Ordering::Relaxed)
}
fn jitter() {
    let n = JITTER.load(Ordering::Relaxed);
    if n == 0 {
        return;
    }
    JRNG.with(|r| {
        let mut x = r.get();
        if x == 0 {
            x = (r as *const _ as u64) | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r.set(x);
        if (x >> 8) as u32 % 256 < n {
            match (x >> 20) % 4 {
                0 => std::thread::yield_now(),
                1 => {
                    for _ in 0..(x >> 24) % 200 {
                        std::hint::spin_loop()
                    }
                }
                2 => {
                    for _ in 0..(x >> 24) % 2000 {
                        std::hint::spin_loop()
                    }
                }
                _ => {}
            }
        }
    })
}

pub(crate) fn self_deadlock(addr: usize, kind: Kind) -> ! {
    let held = HELD.with(|h| h.borrow().clone());
    std::panic::panic_any(SelfDeadlock(format!(
        "{:?} acquisition of lock {:#x} blocks for ever: this thread holds {:x?}",
        kind, addr, held
    )))
}
pub(crate) fn abort_panic() -> ! {
    std::panic::panic_any(RunAborted)
}

pub(crate) fn before_acquire(_addr: usize, _kind: Kind) {
    COUNT.with(|c| c.set(c.get() + 1));
    jitter();
    yield_point();
}
pub(crate) fn acquired(addr: usize, kind: Kind) {
    HELD.with(|h| {
        let mut h = h.borrow_mut();
        if kind == Kind::Upgrade {
            if let Some(e) = h.iter_mut().rev().find(|e| e.0 == addr) {
                e.1 = Kind::Exclusive;
            }
        } else {
            h.push((addr, kind))
        }
    });
}
pub(crate) fn converted(addr: usize, to: Kind) {
    HELD.with(|h| {
        if let Some(e) = h.borrow_mut().iter_mut().rev().find(|e| e.0 == addr) {
            e.1 = to;
        }
    });
}
pub(crate) fn released(addr: usize, kind: Kind, waiting: bool) {
    if kind != Kind::Upgrade {
        // thread-local storage may be gone if a guard is dropped during thread exit
        let _ = HELD.try_with(|h| {
            let mut h = h.borrow_mut();
            if let Some(i) = h.iter().rposition(|e| e.0 == addr) {
                h.remove(i);
            }
        });
    }
    if waiting {
        wake(addr);
    }
    jitter();
    if !std::thread::panicking() {
        sched_point(false);
    }
}

// ------------------------------------------------------------------ scheduler

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(usize, Kind),
    Done,
}

#[derive(Clone, Copy, Debug)]
pub enum Strategy {
    /// at every point continue with the running thread with probability keep/256, else pick uniformly
    Random { keep: u32 },
    /// probabilistic concurrency testing: strict priorities, `depth` change points within `len` steps
    Pct { depth: u32, len: u32 },
}

struct State {
    current: usize,
    status: Vec<Status>,
    rng: u64,
    steps: u64,
    max_steps: u64,
    prio: Vec<u64>,
    changes: Vec<u64>,
    strategy: Strategy,
    abort: bool,
    deadlock: Option<String>,
    livelock: bool,
    hash: u64,
    switches: u64,
    blocks: u64,
}
pub struct Sched {
    st: Mutex<State>,
    cvs: Vec<Condvar>,
}

#[derive(Debug, Default, Clone)]
pub struct Outcome {
    pub deadlock: Option<String>,
    pub livelock: bool,
    /// per thread: message of the panic that ended it, if any
    pub panics: Vec<Option<String>>,
    pub steps: u64,
    pub switches: u64,
    pub blocks: u64,
    /// hash of the sequence of scheduling decisions
    pub hash: u64,
}

fn next_rng(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl State {
    /// choose who runs next; None if nobody is ready
    fn pick(&mut self, me: Option<usize>) -> Option<usize> {
        let ready: Vec<usize> =
            (0..self.status.len()).filter(|&i| self.status[i] == Status::Ready).collect();
        if ready.is_empty() {
            return None;
        }
        self.steps += 1;
        let n = match self.strategy {
            Strategy::Random { keep } => {
                let r = next_rng(&mut self.rng);
                match me {
                    Some(m) if self.status[m] == Status::Ready && (r & 255) < keep as u64 => m,
                    _ => ready[((r >> 8) % ready.len() as u64) as usize],
                }
            }
            Strategy::Pct { .. } => {
                if let Some(p) = self.changes.iter().position(|&c| c == self.steps) {
                    if let Some(m) = me {
                        self.prio[m] = p as u64; // lower than every initial priority
                    }
                }
                *ready.iter().max_by_key(|&&i| self.prio[i]).unwrap()
            }
        };
        self.hash = (self.hash ^ n as u64).wrapping_mul(0x100000001b3).rotate_left(5);
        Some(n)
    }
}

impl Sched {
    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// Hand the processor to whoever is picked; returns false if the run was torn down.
    fn switch(&self, me: usize) -> bool {
        let mut st = self.lock();
        if st.abort {
            return false;
        }
        if st.steps > st.max_steps {
            st.livelock = true;
            st.abort = true;
            for c in &self.cvs {
                c.notify_all();
            }
            return false;
        }
        match st.pick(Some(me)) {
            Some(n) if n == me => return true,
            Some(n) => {
                st.switches += 1;
                st.current = n;
                self.cvs[n].notify_all();
            }
            None => {
                let desc = (0..st.status.len())
                    .map(|i| format!("thread {}: {:x?}", i, st.status[i]))
                    .collect::<Vec<_>>()
                    .join("; ");
                st.deadlock = Some(desc);
                st.abort = true;
                for c in &self.cvs {
                    c.notify_all();
                }
                return false;
            }
        }
        while st.current != me && !st.abort {
            st = self.cvs[me].wait(st).unwrap_or_else(|e| e.into_inner());
        }
        !st.abort
    }
}

fn ctx() -> Option<(Arc<Sched>, usize)> {
    CTX.try_with(|c| c.borrow().clone()).ok().flatten()
}
pub fn is_scheduled() -> bool {
    CTX.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}
fn sched_point(may_panic: bool) {
    if let Some((s, me)) = ctx() {
        if !s.switch(me) && may_panic && !std::thread::panicking() {
            abort_panic();
        }
    }
}
/// A point where another thread may run (scheduled mode); nothing otherwise.
pub fn yield_point() {
    sched_point(true)
}
/// Mark this thread blocked on `addr` until a release wakes it. False: run torn down.
pub(crate) fn block(addr: usize, kind: Kind) -> bool {
    let (s, me) = ctx().unwrap();
    {
        let mut st = s.lock();
        if st.abort {
            return false;
        }
        st.status[me] = Status::Blocked(addr, kind);
        st.blocks += 1;
    }
    s.switch(me)
}
pub(crate) fn wake(addr: usize) {
    if let Some((s, _)) = ctx() {
        let mut st = s.lock();
        for t in st.status.iter_mut() {
            if matches!(t, Status::Blocked(a, _) if *a == addr) {
                *t = Status::Ready;
            }
        }
    }
}
/// Logical time of the scheduled run (0 outside one).
pub fn now() -> u64 {
    match ctx() {
        Some((s, _)) => {
            let mut st = s.lock();
            st.steps += 1;
            st.steps
        }
        None => 0,
    }
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<SelfDeadlock>() {
        format!("self-deadlock: {}", s.0)
    } else if p.is::<RunAborted>() {
        "run aborted".into()
    } else {
        "panic with an unknown payload".into()
    }
}

/// Run the bodies under the deterministic scheduler.
pub fn run_threads<'a>(
    seed: u64,
    strategy: Strategy,
    max_steps: u64,
    bodies: Vec<Box<dyn FnOnce() + Send + 'a>>,
) -> Outcome {
    let n = bodies.len();
    let mut rng = seed ^ 0xD1B54A32D192ED03;
    let mut prio: Vec<u64> = (0..n as u64).map(|i| 1000 + i).collect();
    for i in (1..n).rev() {
        let j = (next_rng(&mut rng) % (i as u64 + 1)) as usize;
        prio.swap(i, j);
    }
    let changes = match strategy {
        Strategy::Pct { depth, len } => {
            (0..depth).map(|_| 1 + next_rng(&mut rng) % len.max(1) as u64).collect()
        }
        _ => vec![],
    };
    let mut st = State {
        current: usize::MAX,
        status: vec![Status::Ready; n],
        rng,
        steps: 0,
        max_steps,
        prio,
        changes,
        strategy,
        abort: false,
        deadlock: None,
        livelock: false,
        hash: 0xcbf29ce484222325,
        switches: 0,
        blocks: 0,
    };
    st.current = st.pick(None).unwrap();
    let sched = Arc::new(Sched { st: Mutex::new(st), cvs: (0..n).map(|_| Condvar::new()).collect() });
    let mut panics = vec![None; n];
    std::thread::scope(|sc| {
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, body)| {
                let sched = sched.clone();
                sc.spawn(move || {
                    CTX.with(|c| *c.borrow_mut() = Some((sched.clone(), i)));
                    let ok = {
                        let mut st = sched.lock();
                        while st.current != i && !st.abort {
                            st = sched.cvs[i].wait(st).unwrap_or_else(|e| e.into_inner());
                        }
                        !st.abort
                    };
                    let r = if ok { catch_unwind(AssertUnwindSafe(body)) } else { Ok(()) };
                    let msg = r.err().map(|p| panic_text(&*p));
                    // hand over
                    let mut st = sched.lock();
                    st.status[i] = Status::Done;
                    if !st.abort {
                        match st.pick(None) {
                            Some(k) => {
                                st.current = k;
                                sched.cvs[k].notify_all();
                            }
                            None => {
                                if st.status.iter().any(|s| *s != Status::Done) {
                                    let desc = (0..st.status.len())
                                        .map(|i| format!("thread {}: {:x?}", i, st.status[i]))
                                        .collect::<Vec<_>>()
                                        .join("; ");
                                    st.deadlock = Some(desc);
                                    st.abort = true;
                                    for c in &sched.cvs {
                                        c.notify_all();
                                    }
                                }
                            }
                        }
                    }
                    drop(st);
                    CTX.with(|c| *c.borrow_mut() = None);
                    msg
                })
            })
            .collect();
        for (i, h) in hs.into_iter().enumerate() {
            panics[i] = h.join().unwrap_or(Some("thread died".into()));
        }
    });
    let st = sched.lock();
    Outcome {
        deadlock: st.deadlock.clone(),
        livelock: st.livelock,
        panics,
        steps: st.steps,
        switches: st.switches,
        blocks: st.blocks,
        hash: st.hash,
    }
}
