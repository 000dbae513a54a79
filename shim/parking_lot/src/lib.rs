//! Monitoring stand-in for `parking_lot`.
//!
//! The public lock types are `lock_api` types over the raw locks below, exactly as in the real crate, so the
//! library under test compiles unchanged. Every acquire and release is observed (locks held per thread), and a
//! thread runs in one of three modes:
//!   * plain      real blocking (std Mutex + Condvar), optionally with jitter;
//!   * solo       a lock operation that would block panics with [`monitor::SelfDeadlock`] (one thread only, so
//!                blocking means blocking for ever);
//!   * scheduled  one thread runs at a time, every lock operation is a scheduling point, blocking is
//!                modelled and "nobody can run" is reported as a deadlock (see [`monitor::run_threads`]).
//!
//! Queueing follows parking_lot: a reader waits behind a writer that was already waiting (so recursive reads can
//! block), a writer may overtake.

pub use lock_api;
use std::sync::{Condvar as StdCondvar, Mutex as StdMutex, MutexGuard as StdGuard};
use std::time::{Duration, Instant};

pub mod monitor;

struct Inner {
    writer: bool,
    readers: usize,
    upgradable: bool,
    /// waiting requests in arrival order: (ticket, exclusive)
    waiters: Vec<(u64, bool)>,
    next_ticket: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Shared,
    Recursive,
    Exclusive,
    Upgradable,
    Upgrade,
}

impl Inner {
    fn can(&self, kind: Kind, ticket: u64) -> bool {
        match kind {
            Kind::Shared => !self.writer && !self.waiters.iter().any(|&(t, x)| x && t < ticket),
            Kind::Recursive => !self.writer,
            Kind::Exclusive => !self.writer && self.readers == 0 && !self.upgradable,
            Kind::Upgradable => {
                !self.writer && !self.upgradable && !self.waiters.iter().any(|&(t, x)| x && t < ticket)
            }
            Kind::Upgrade => self.readers == 0,
        }
    }
    fn take(&mut self, kind: Kind) {
        match kind {
            Kind::Shared | Kind::Recursive => self.readers += 1,
            Kind::Exclusive => self.writer = true,
            Kind::Upgradable => self.upgradable = true,
            Kind::Upgrade => {
                self.upgradable = false;
                self.writer = true
            }
        }
    }
}

/// The interpreter is slow: there the lock is one word, and waiting is yielding.
#[cfg(miri)]
mod word {
    use super::{monitor, Kind};
    use std::sync::atomic::{AtomicUsize, Ordering::*};
    /// bit 0 writer, bit 1 upgradable, rest readers
    pub struct RawRwLock(AtomicUsize);
    pub const NEW: RawRwLock = RawRwLock(AtomicUsize::new(0));
    impl RawRwLock {
        pub fn addr(&self) -> usize {
            self as *const _ as usize
        }
        pub fn try_acquire(&self, kind: Kind) -> bool {
            let mut s = self.0.load(Relaxed);
            loop {
                let n = match kind {
                    Kind::Shared | Kind::Recursive if s & 1 == 0 => s + 4,
                    Kind::Exclusive if s == 0 => 1,
                    Kind::Upgradable if s & 3 == 0 => s | 2,
                    Kind::Upgrade if s == 2 => 1,
                    _ => return false,
                };
                match self.0.compare_exchange(s, n, Acquire, Relaxed) {
                    Ok(_) => {
                        if kind != Kind::Upgrade {
                            monitor::held_add(1);
                        }
                        return true;
                    }
                    Err(x) => s = x,
                }
            }
        }
        pub fn acquire(&self, kind: Kind) {
            while !self.try_acquire(kind) {
                if monitor::is_solo() {
                    monitor::self_deadlock(self.addr(), kind);
                }
                monitor::note_contended();
                std::thread::yield_now();
            }
        }
        pub fn give(&self, kind: Kind) {
            let d = match kind {
                Kind::Shared | Kind::Recursive => 4,
                Kind::Upgradable => 2,
                _ => 1,
            };
            self.0.fetch_sub(d, Release);
            monitor::held_add(-1);
        }
        pub fn convert(&self, from: Kind, to: Kind) {
            let d = |k| match k {
                Kind::Shared | Kind::Recursive => 4,
                Kind::Upgradable => 2,
                _ => 1,
            };
            self.0.fetch_add(d(to), Release);
            self.0.fetch_sub(d(from), Release);
        }
        pub fn state(&self) -> usize {
            self.0.load(Relaxed)
        }
    }
}
#[cfg(miri)]
pub use word::RawRwLock;
#[cfg(miri)]
use word::NEW;

#[cfg(not(miri))]
pub struct RawRwLock {
    inner: StdMutex<Inner>,
    cv: StdCondvar,
}

#[cfg(not(miri))]
impl RawRwLock {
    fn lock_inner(&self) -> StdGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn try_acquire(&self, kind: Kind) -> bool {
        let mut g = self.lock_inner();
        if g.can(kind, u64::MAX) {
            g.take(kind);
            drop(g);
            monitor::acquired(self.addr(), kind);
            true
        } else {
            false
        }
    }
    fn acquire(&self, kind: Kind) {
        monitor::before_acquire(self.addr(), kind);
        let mut g = self.lock_inner();
        if g.can(kind, u64::MAX) {
            g.take(kind);
            drop(g);
            monitor::acquired(self.addr(), kind);
            return;
        }
        if monitor::is_solo() {
            drop(g);
            monitor::self_deadlock(self.addr(), kind);
        }
        let ticket = g.next_ticket;
        g.next_ticket += 1;
        g.waiters.push((ticket, kind == Kind::Exclusive || kind == Kind::Upgrade));
        loop {
            if monitor::is_scheduled() {
                drop(g);
                if !monitor::block(self.addr(), kind) {
                    // the run is being torn down
                    let mut g = self.lock_inner();
                    g.waiters.retain(|w| w.0 != ticket);
                    drop(g);
                    monitor::abort_panic();
                }
                g = self.lock_inner();
            } else {
                monitor::note_contended();
                g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
            }
            if g.can(kind, ticket) {
                g.waiters.retain(|w| w.0 != ticket);
                g.take(kind);
                let more = !g.waiters.is_empty();
                drop(g);
                if more {
                    // other readers queued behind the same writer may go too
                    self.cv.notify_all();
                    monitor::wake(self.addr());
                }
                monitor::acquired(self.addr(), kind);
                return;
            }
        }
    }
    fn state(&self) -> usize {
        let g = self.lock_inner();
        g.writer as usize | (g.upgradable as usize) << 1 | g.readers << 2
    }
    fn give(&self, kind: Kind) {
        match kind {
            Kind::Shared | Kind::Recursive => self.release(|g| g.readers -= 1, kind),
            Kind::Upgradable => self.release(|g| g.upgradable = false, kind),
            _ => self.release(|g| g.writer = false, kind),
        }
    }
    fn convert(&self, from: Kind, to: Kind) {
        monitor::converted(self.addr(), to);
        self.release(
            |g| {
                if from == Kind::Exclusive {
                    g.writer = false
                } else {
                    g.upgradable = false
                }
                if to == Kind::Shared {
                    g.readers += 1
                } else {
                    g.upgradable = true
                }
            },
            Kind::Upgrade, // not a held-count change
        )
    }
    fn release(&self, f: impl FnOnce(&mut Inner), kind: Kind) {
        let waiting = {
            let mut g = self.lock_inner();
            f(&mut g);
            !g.waiters.is_empty()
        };
        if waiting {
            self.cv.notify_all();
        }
        monitor::released(self.addr(), kind, waiting);
    }
}

#[cfg(not(miri))]
const NEW: RawRwLock = RawRwLock {
    inner: StdMutex::new(Inner { writer: false, readers: 0, upgradable: false, waiters: Vec::new(), next_ticket: 0 }),
    cv: StdCondvar::new(),
};
impl RawRwLock {
    fn timed(&self, kind: Kind, deadline: Instant) -> bool {
        loop {
            if self.try_acquire(kind) {
                return true;
            }
            if Instant::now() >= deadline {
                return false;
            }
            monitor::yield_point();
            std::thread::yield_now();
        }
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    const INIT: Self = NEW;
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        self.acquire(Kind::Shared)
    }
    fn try_lock_shared(&self) -> bool {
        self.try_acquire(Kind::Shared)
    }
    unsafe fn unlock_shared(&self) {
        self.give(Kind::Shared)
    }
    fn lock_exclusive(&self) {
        self.acquire(Kind::Exclusive)
    }
    fn try_lock_exclusive(&self) -> bool {
        self.try_acquire(Kind::Exclusive)
    }
    unsafe fn unlock_exclusive(&self) {
        self.give(Kind::Exclusive)
    }
    fn is_locked(&self) -> bool {
        self.state() != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.state() & 1 == 1
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.convert(Kind::Exclusive, Kind::Shared)
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.acquire(Kind::Recursive)
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.try_acquire(Kind::Recursive)
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, t: Duration) -> bool {
        self.timed(Kind::Shared, Instant::now() + t)
    }
    fn try_lock_shared_until(&self, t: Instant) -> bool {
        self.timed(Kind::Shared, t)
    }
    fn try_lock_exclusive_for(&self, t: Duration) -> bool {
        self.timed(Kind::Exclusive, Instant::now() + t)
    }
    fn try_lock_exclusive_until(&self, t: Instant) -> bool {
        self.timed(Kind::Exclusive, t)
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.acquire(Kind::Upgradable)
    }
    fn try_lock_upgradable(&self) -> bool {
        self.try_acquire(Kind::Upgradable)
    }
    unsafe fn unlock_upgradable(&self) {
        self.give(Kind::Upgradable)
    }
    unsafe fn upgrade(&self) {
        self.acquire(Kind::Upgrade)
    }
    unsafe fn try_upgrade(&self) -> bool {
        self.try_acquire(Kind::Upgrade)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.convert(Kind::Upgradable, Kind::Shared)
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.convert(Kind::Exclusive, Kind::Upgradable)
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}
unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, t: Duration) -> bool {
        self.timed(Kind::Recursive, Instant::now() + t)
    }
    fn try_lock_shared_recursive_until(&self, t: Instant) -> bool {
        self.timed(Kind::Recursive, t)
    }
}
unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, t: Duration) -> bool {
        self.timed(Kind::Upgradable, Instant::now() + t)
    }
    fn try_lock_upgradable_until(&self, t: Instant) -> bool {
        self.timed(Kind::Upgradable, t)
    }
    unsafe fn try_upgrade_for(&self, t: Duration) -> bool {
        self.timed(Kind::Upgrade, Instant::now() + t)
    }
    unsafe fn try_upgrade_until(&self, t: Instant) -> bool {
        self.timed(Kind::Upgrade, t)
    }
}

pub struct RawMutex(RawRwLock);
unsafe impl lock_api::RawMutex for RawMutex {
    const INIT: Self = RawMutex(NEW);
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        self.0.acquire(Kind::Exclusive)
    }
    fn try_lock(&self) -> bool {
        self.0.try_acquire(Kind::Exclusive)
    }
    unsafe fn unlock(&self) {
        self.0.give(Kind::Exclusive)
    }
    fn is_locked(&self) -> bool {
        lock_api::RawRwLock::is_locked(&self.0)
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, t: Duration) -> bool {
        self.0.timed(Kind::Exclusive, Instant::now() + t)
    }
    fn try_lock_until(&self, t: Instant) -> bool {
        self.0.timed(Kind::Exclusive, t)
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const u8 as usize).unwrap())
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type MappedFairMutexGuard<'a, T> = MappedMutexGuard<'a, T>;
pub type RawFairMutex = RawMutex;
pub type MappedReentrantMutexGuard<'a, T> = lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_fair_mutex<T>(val: T) -> FairMutex<T> {
    const_mutex(val)
}
pub const fn const_reentrant_mutex<T>(val: T) -> ReentrantMutex<T> {
    ReentrantMutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, RawThreadId, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

/// Spurious wake-ups are allowed by the contract, so waiting is "release, let others run, re-acquire".
#[derive(Default, Debug)]
pub struct Condvar(());
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar(())
    }
    pub fn notify_one(&self) -> bool {
        true
    }
    pub fn notify_all(&self) -> usize {
        1
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        MutexGuard::unlocked(g, || {
            monitor::yield_point();
            std::thread::yield_now()
        })
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _t: Duration) -> WaitTimeoutResult {
        self.wait(g);
        WaitTimeoutResult(false)
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, t: Instant) -> WaitTimeoutResult {
        self.wait(g);
        WaitTimeoutResult(Instant::now() >= t)
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F) {
        while f(&mut **g) {
            self.wait(g)
        }
    }
    pub fn wait_while_until<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F, t: Instant) -> WaitTimeoutResult {
        while f(&mut **g) {
            if self.wait_until(g, t).timed_out() {
                return WaitTimeoutResult(f(&mut **g));
            }
        }
        WaitTimeoutResult(false)
    }
    pub fn wait_while_for<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, f: F, t: Duration) -> WaitTimeoutResult {
        self.wait_while_until(g, f, Instant::now() + t)
    }
}

/// A flag under a lock: whoever comes second waits like for any other lock.
#[derive(Debug)]
pub struct Once(Mutex<OnceState>);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}
impl OnceState {
    pub fn poisoned(self) -> bool {
        self == OnceState::Poisoned
    }
    pub fn done(self) -> bool {
        self == OnceState::Done
    }
}
impl Default for Once {
    fn default() -> Self {
        Once::new()
    }
}
impl Once {
    pub const fn new() -> Self {
        Once(const_mutex(OnceState::New))
    }
    pub fn state(&self) -> OnceState {
        match self.0.try_lock() {
            Some(g) => *g,
            None => OnceState::InProgress,
        }
    }
    fn run(&self, force: bool, f: impl FnOnce(OnceState)) {
        struct Poison<'a>(MutexGuard<'a, OnceState>, OnceState);
        impl Drop for Poison<'_> {
            fn drop(&mut self) {
                *self.0 = self.1
            }
        }
        let g = self.0.lock();
        match *g {
            OnceState::Done => {}
            OnceState::Poisoned if !force => panic!("Once instance has previously been poisoned"),
            s => {
                let mut p = Poison(g, OnceState::Poisoned);
                f(s);
                p.1 = OnceState::Done;
            }
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.run(false, |_| f())
    }
    pub fn call_once_force<F: FnOnce(OnceState)>(&self, f: F) {
        self.run(true, f)
    }
}
