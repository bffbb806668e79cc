//! `parking_lot` as the simulator provides it. Semantics follow parking_lot 0.12:
//! no poisoning, shared locks are not safe to take recursively (a waiting writer may or
//! may not hold up new readers; the scheduler decides), guards stay on their thread.
pub mod mem;
pub mod race;
pub mod sim;
pub use lock_api;
use lock_api as la;
use sim::Mode;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub struct RawRwLock {
    id: AtomicU32,
    readers: AtomicU32,
    writer: AtomicBool,
    upgr: AtomicBool,
    wwait: AtomicU32,
}

impl RawRwLock {
    fn id(&self) -> u32 {
        let i = self.id.load(Relaxed);
        if i != 0 {
            return i;
        }
        let i = sim::fresh_lock_id();
        if i != u32::MAX {
            self.id.store(i, Relaxed);
        }
        i
    }
    /// a refused attempt may be part of a busy wait
    fn tried(&self, ok: bool) -> bool {
        if !ok {
            sim::looked(self as *const _ as usize, 0);
        }
        ok
    }
    fn try_excl(&self) -> bool {
        if self.readers.load(Relaxed) == 0 && !self.writer.load(Relaxed) && !self.upgr.load(Relaxed) {
            self.writer.store(true, Relaxed);
            sim::acquired(self.id(), Mode::Excl);
            true
        } else {
            false
        }
    }
    fn try_shared(&self, recursive: bool) -> bool {
        if self.writer.load(Relaxed) {
            return false;
        }
        if self.wwait.load(Relaxed) > 0 && !recursive && !sim::may_barge() {
            return false;
        }
        self.readers.fetch_add(1, Relaxed);
        sim::acquired(self.id(), Mode::Shared);
        true
    }
    fn try_upgr(&self) -> bool {
        if self.writer.load(Relaxed) || self.upgr.load(Relaxed) {
            return false;
        }
        self.upgr.store(true, Relaxed);
        sim::acquired(self.id(), Mode::Upgradable);
        true
    }
    fn excl(&self, timed: bool) -> bool {
        sim::point(10, self.id() as u64);
        loop {
            if self.try_excl() {
                return true;
            }
            if timed && sim::time_out_now() {
                return false;
            }
            self.wwait.fetch_add(1, Relaxed);
            let ok = sim::block(self.id(), true, timed);
            self.wwait.fetch_sub(1, Relaxed);
            if !ok {
                sim::wake(self.id());
                return false;
            }
        }
    }
    fn shared(&self, recursive: bool, timed: bool) -> bool {
        sim::point(11, self.id() as u64);
        loop {
            if self.try_shared(recursive) {
                return true;
            }
            if timed && sim::time_out_now() {
                return false;
            }
            if !sim::block(self.id(), false, timed) {
                return false;
            }
        }
    }
    fn upgr(&self, timed: bool) -> bool {
        sim::point(12, self.id() as u64);
        loop {
            if self.try_upgr() {
                return true;
            }
            if timed && sim::time_out_now() {
                return false;
            }
            if !sim::block(self.id(), true, timed) {
                return false;
            }
        }
    }
}

unsafe impl la::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock {
        id: AtomicU32::new(0),
        readers: AtomicU32::new(0),
        writer: AtomicBool::new(false),
        upgr: AtomicBool::new(false),
        wwait: AtomicU32::new(0),
    };
    type GuardMarker = la::GuardNoSend;
    fn lock_shared(&self) {
        self.shared(false, false);
    }
    fn try_lock_shared(&self) -> bool {
        sim::point(13, self.id() as u64);
        self.tried(self.try_shared(true))
    }
    unsafe fn unlock_shared(&self) {
        self.readers.fetch_sub(1, Relaxed);
        sim::released(self.id(), Mode::Shared);
    }
    fn lock_exclusive(&self) {
        self.excl(false);
    }
    fn try_lock_exclusive(&self) -> bool {
        sim::point(14, self.id() as u64);
        self.tried(self.try_excl())
    }
    unsafe fn unlock_exclusive(&self) {
        self.writer.store(false, Relaxed);
        sim::released(self.id(), Mode::Excl);
    }
    fn is_locked(&self) -> bool {
        self.readers.load(Relaxed) > 0 || self.writer.load(Relaxed) || self.upgr.load(Relaxed)
    }
    fn is_locked_exclusive(&self) -> bool {
        self.writer.load(Relaxed)
    }
}
unsafe impl la::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        la::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        la::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl la::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.readers.fetch_add(1, Relaxed);
        self.writer.store(false, Relaxed);
        let id = self.id();
        sim::released(id, Mode::Excl);
        sim::acquired(id, Mode::Shared);
    }
}
unsafe impl la::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.shared(true, false);
    }
    fn try_lock_shared_recursive(&self) -> bool {
        sim::point(13, self.id() as u64);
        self.tried(self.try_shared(true))
    }
}
unsafe impl la::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        self.shared(false, true)
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        self.shared(false, true)
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        self.excl(true)
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        self.excl(true)
    }
}
unsafe impl la::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, _: Duration) -> bool {
        self.shared(true, true)
    }
    fn try_lock_shared_recursive_until(&self, _: Instant) -> bool {
        self.shared(true, true)
    }
}
unsafe impl la::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.upgr(false);
    }
    fn try_lock_upgradable(&self) -> bool {
        sim::point(15, self.id() as u64);
        self.tried(self.try_upgr())
    }
    unsafe fn unlock_upgradable(&self) {
        self.upgr.store(false, Relaxed);
        sim::released(self.id(), Mode::Upgradable);
    }
    unsafe fn upgrade(&self) {
        sim::point(16, self.id() as u64);
        loop {
            if self.readers.load(Relaxed) == 0 {
                self.upgr.store(false, Relaxed);
                self.writer.store(true, Relaxed);
                sim::released(self.id(), Mode::Upgradable);
                sim::acquired(self.id(), Mode::Excl);
                return;
            }
            self.wwait.fetch_add(1, Relaxed);
            sim::block(self.id(), true, false);
            self.wwait.fetch_sub(1, Relaxed);
        }
    }
    unsafe fn try_upgrade(&self) -> bool {
        sim::point(17, self.id() as u64);
        if self.readers.load(Relaxed) == 0 {
            self.upgr.store(false, Relaxed);
            self.writer.store(true, Relaxed);
            sim::released(self.id(), Mode::Upgradable);
            sim::acquired(self.id(), Mode::Excl);
            true
        } else {
            false
        }
    }
}
unsafe impl la::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.readers.fetch_add(1, Relaxed);
        self.upgr.store(false, Relaxed);
        sim::released(self.id(), Mode::Upgradable);
        sim::acquired(self.id(), Mode::Shared);
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.upgr.store(true, Relaxed);
        self.writer.store(false, Relaxed);
        sim::released(self.id(), Mode::Excl);
        sim::acquired(self.id(), Mode::Upgradable);
    }
}
unsafe impl la::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        la::RawRwLockUpgrade::unlock_upgradable(self)
    }
}

pub type RwLock<T> = la::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = la::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = la::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = la::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = la::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = la::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as la::RawRwLock>::INIT, val)
}

pub struct RawMutex(RawRwLock);
unsafe impl la::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(<RawRwLock as la::RawRwLock>::INIT);
    type GuardMarker = la::GuardNoSend;
    fn lock(&self) {
        self.0.excl(false);
    }
    fn try_lock(&self) -> bool {
        sim::point(14, self.0.id() as u64);
        self.0.tried(self.0.try_excl())
    }
    unsafe fn unlock(&self) {
        la::RawRwLock::unlock_exclusive(&self.0)
    }
    fn is_locked(&self) -> bool {
        la::RawRwLock::is_locked(&self.0)
    }
}
unsafe impl la::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        la::RawMutex::unlock(self)
    }
}
unsafe impl la::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        self.0.excl(true)
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        self.0.excl(true)
    }
}
pub type Mutex<T> = la::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = la::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = la::MappedMutexGuard<'a, RawMutex, T>;
pub type RawFairMutex = RawMutex;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type MappedFairMutexGuard<'a, T> = MappedMutexGuard<'a, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as la::RawMutex>::INIT, val)
}
pub const fn const_fair_mutex<T>(val: T) -> FairMutex<T> {
    const_mutex(val)
}

pub struct RawThreadId;
unsafe impl la::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(sim::tid().map(|t| t + 2).unwrap_or(1)).unwrap()
    }
}
pub type ReentrantMutex<T> = la::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = la::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type MappedReentrantMutexGuard<'a, T> = la::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

/// Condition variable: waiters queue on an internal pseudo lock.
pub struct Condvar {
    q: RawRwLock,
    gen: AtomicU32,
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { q: <RawRwLock as la::RawRwLock>::INIT, gen: AtomicU32::new(0) }
    }
    /// all waiters wake and re-check (spurious wakeups are legal)
    pub fn notify_all(&self) -> usize {
        self.gen.fetch_add(1, Relaxed);
        sim::wake(self.q.id());
        1
    }
    pub fn notify_one(&self) -> bool {
        self.notify_all() > 0
    }
    fn park<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, timed: bool) -> bool {
        let gen = self.gen.load(Relaxed);
        MutexGuard::unlocked(g, || {
            if self.gen.load(Relaxed) == gen {
                let r = sim::block(self.q.id(), true, timed);
                race::join_all();
                r
            } else {
                true
            }
        })
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.park(g, false);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _: Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(!self.park(g, true))
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _: Instant) -> WaitTimeoutResult {
        WaitTimeoutResult(!self.park(g, true))
    }
}

/// One-time initialisation.
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}
pub struct Once(Mutex<bool>);
impl Once {
    pub const fn new() -> Once {
        Once(const_mutex(false))
    }
    pub fn state(&self) -> OnceState {
        match self.0.try_lock() {
            None => OnceState::InProgress,
            Some(g) if *g => OnceState::Done,
            _ => OnceState::New,
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let mut g = self.0.lock();
        if !*g {
            f();
            *g = true;
        }
    }
}
impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}
