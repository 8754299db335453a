//! API-compatible stand-in for `parking_lot`; see Cargo.toml.
use std::cell::UnsafeCell;
use std::time::{Duration, Instant};

extern "C" {
    fn vp_acquire(p: *const u64, mode: u32);
    fn vp_try_acquire(p: *const u64, mode: u32) -> bool;
    fn vp_release(p: *const u64, mode: u32);
    fn vp_cv_wait(cv: *const u64, mx: *const u64, timed: u32) -> bool;
    fn vp_cv_notify(cv: *const u64, all: u32);
}
const MUTEX: u32 = 0;
const READ: u32 = 1;
const WRITE: u32 = 2;

pub struct RawMutex {
    w: UnsafeCell<u64>,
}
unsafe impl Send for RawMutex {}
unsafe impl Sync for RawMutex {}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { w: UnsafeCell::new(0) };
    type GuardMarker = lock_api::GuardSend;
    fn lock(&self) {
        unsafe { vp_acquire(self.w.get(), MUTEX) }
    }
    fn try_lock(&self) -> bool {
        unsafe { vp_try_acquire(self.w.get(), MUTEX) }
    }
    unsafe fn unlock(&self) {
        vp_release(self.w.get(), MUTEX)
    }
    fn is_locked(&self) -> bool {
        unsafe { *self.w.get() != 0 }
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        vp_release(self.w.get(), MUTEX)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _t: Duration) -> bool {
        unsafe { vp_try_acquire(self.w.get(), MUTEX) }
    }
    fn try_lock_until(&self, _t: Instant) -> bool {
        unsafe { vp_try_acquire(self.w.get(), MUTEX) }
    }
}

pub struct RawRwLock {
    w: UnsafeCell<u64>,
}
unsafe impl Send for RawRwLock {}
unsafe impl Sync for RawRwLock {}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock { w: UnsafeCell::new(0) };
    type GuardMarker = lock_api::GuardSend;
    fn lock_shared(&self) {
        unsafe { vp_acquire(self.w.get(), READ) }
    }
    fn try_lock_shared(&self) -> bool {
        unsafe { vp_try_acquire(self.w.get(), READ) }
    }
    unsafe fn unlock_shared(&self) {
        vp_release(self.w.get(), READ)
    }
    fn lock_exclusive(&self) {
        unsafe { vp_acquire(self.w.get(), WRITE) }
    }
    fn try_lock_exclusive(&self) -> bool {
        unsafe { vp_try_acquire(self.w.get(), WRITE) }
    }
    unsafe fn unlock_exclusive(&self) {
        vp_release(self.w.get(), WRITE)
    }
    fn is_locked(&self) -> bool {
        unsafe { *self.w.get() != 0 }
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        vp_release(self.w.get(), READ)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        vp_release(self.w.get(), WRITE)
    }
}
// An upgradable read is modelled as a write lock: it excludes other upgradable readers and
// writers as it must, and (more strictly than the original) plain readers too.
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        unsafe { vp_acquire(self.w.get(), WRITE) }
    }
    fn try_lock_upgradable(&self) -> bool {
        unsafe { vp_try_acquire(self.w.get(), WRITE) }
    }
    unsafe fn unlock_upgradable(&self) {
        vp_release(self.w.get(), WRITE)
    }
    unsafe fn upgrade(&self) {}
    unsafe fn try_upgrade(&self) -> bool {
        true
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        vp_release(self.w.get(), WRITE);
        vp_acquire(self.w.get(), READ)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        vp_release(self.w.get(), WRITE);
        vp_acquire(self.w.get(), READ)
    }
    unsafe fn downgrade_to_upgradable(&self) {}
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub use lock_api;

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

pub struct Condvar {
    w: UnsafeCell<u64>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl std::fmt::Debug for Condvar {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("Condvar { .. }")
    }
}
fn raw<T: ?Sized>(g: &MutexGuard<'_, T>) -> *const u64 {
    unsafe { MutexGuard::mutex(g).raw().w.get() }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { w: UnsafeCell::new(0) }
    }
    pub fn notify_one(&self) -> bool {
        unsafe { vp_cv_notify(self.w.get(), 0) };
        true
    }
    pub fn notify_all(&self) -> usize {
        unsafe { vp_cv_notify(self.w.get(), 1) };
        1
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        unsafe { vp_cv_wait(self.w.get(), raw(g), 0) };
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _t: Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(unsafe { vp_cv_wait(self.w.get(), raw(g), 1) })
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _t: Instant) -> WaitTimeoutResult {
        WaitTimeoutResult(unsafe { vp_cv_wait(self.w.get(), raw(g), 1) })
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F) {
        while f(&mut *g) {
            self.wait(g)
        }
    }
    pub fn wait_while_for<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        g: &mut MutexGuard<'_, T>,
        mut f: F,
        t: Duration,
    ) -> WaitTimeoutResult {
        while f(&mut *g) {
            if self.wait_for(g, t).timed_out() {
                return WaitTimeoutResult(f(&mut *g));
            }
        }
        WaitTimeoutResult(false)
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        extern "C" {
            fn vp_tid() -> u32;
        }
        std::num::NonZeroUsize::new(unsafe { vp_tid() } as usize + 1).unwrap()
    }
}
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}
