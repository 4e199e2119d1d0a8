//! Stand-in for `parking_lot` in the model-checked build: the same types (they are
//! `lock_api` types there too), with each lock operation one step of the
//! controlled scheduler. It keeps parking_lot's semantics that matter here: no
//! poisoning, readers wait for a waiting writer unless they are recursive, and an
//! upgradable reader excludes other upgradable readers and writers.
use std::cell::UnsafeCell;
use std::time::{Duration, Instant};

extern "C" {
    fn rt_lock(w: *mut u64, mode: i32);
    fn rt_try_lock(w: *mut u64, mode: i32) -> i32;
    fn rt_unlock(w: *mut u64, mode: i32);
    fn rt_lock_peek(w: *mut u64) -> u64;
    fn rt_thread_id() -> usize;
}
const SHARED: i32 = 0;
const RECURSIVE: i32 = 1;
const EXCLUSIVE: i32 = 2;
const MUTEX: i32 = 3;
const UPGRADABLE: i32 = 4;
const UPGRADE: i32 = 5;
const U_SHARED: i32 = 0;
const U_EXCLUSIVE: i32 = 1;
const U_UPGRADABLE: i32 = 2;
const U_DOWNGRADE: i32 = 3;
const U_DOWNGRADE_UPGRADABLE: i32 = 4;
const U_DOWNGRADE_TO_UPGRADABLE: i32 = 5;

macro_rules! word {
    ($n:ident) => {
        pub struct $n(UnsafeCell<u64>);
        unsafe impl Send for $n {}
        unsafe impl Sync for $n {}
        impl $n {
            fn l(&self, m: i32) { unsafe { rt_lock(self.0.get(), m) } }
            fn t(&self, m: i32) -> bool { unsafe { rt_try_lock(self.0.get(), m) != 0 } }
            fn u(&self, m: i32) { unsafe { rt_unlock(self.0.get(), m) } }
            fn peek(&self) -> u64 { unsafe { rt_lock_peek(self.0.get()) } }
        }
    };
}
word!(RawMutex);
word!(RawRwLock);
pub type RawFairMutex = RawMutex;

unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(UnsafeCell::new(0));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) { self.l(MUTEX) }
    fn try_lock(&self) -> bool { self.t(MUTEX) }
    unsafe fn unlock(&self) { self.u(U_EXCLUSIVE) }
    fn is_locked(&self) -> bool { self.peek() != 0 }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) { self.u(U_EXCLUSIVE) }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool { self.t(MUTEX) }
    fn try_lock_until(&self, _: Instant) -> bool { self.t(MUTEX) }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock(UnsafeCell::new(0));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) { self.l(SHARED) }
    fn try_lock_shared(&self) -> bool { self.t(SHARED) }
    unsafe fn unlock_shared(&self) { self.u(U_SHARED) }
    fn lock_exclusive(&self) { self.l(EXCLUSIVE) }
    fn try_lock_exclusive(&self) -> bool { self.t(EXCLUSIVE) }
    unsafe fn unlock_exclusive(&self) { self.u(U_EXCLUSIVE) }
    fn is_locked(&self) -> bool { self.peek() & 0xffff_ffff != 0 }
    fn is_locked_exclusive(&self) -> bool { self.peek() & 1 != 0 }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) { self.u(U_SHARED) }
    unsafe fn unlock_exclusive_fair(&self) { self.u(U_EXCLUSIVE) }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) { self.u(U_DOWNGRADE) }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool { self.t(SHARED) }
    fn try_lock_shared_until(&self, _: Instant) -> bool { self.t(SHARED) }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool { self.t(EXCLUSIVE) }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool { self.t(EXCLUSIVE) }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) { self.l(RECURSIVE) }
    fn try_lock_shared_recursive(&self) -> bool { self.t(RECURSIVE) }
}
unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, _: Duration) -> bool { self.t(RECURSIVE) }
    fn try_lock_shared_recursive_until(&self, _: Instant) -> bool { self.t(RECURSIVE) }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) { self.l(UPGRADABLE) }
    fn try_lock_upgradable(&self) -> bool { self.t(UPGRADABLE) }
    unsafe fn unlock_upgradable(&self) { self.u(U_UPGRADABLE) }
    unsafe fn upgrade(&self) { self.l(UPGRADE) }
    unsafe fn try_upgrade(&self) -> bool { self.t(UPGRADE) }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) { self.u(U_UPGRADABLE) }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) { self.u(U_DOWNGRADE_UPGRADABLE) }
    unsafe fn downgrade_to_upgradable(&self) { self.u(U_DOWNGRADE_TO_UPGRADABLE) }
}
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize { std::num::NonZeroUsize::new(unsafe { rt_thread_id() }).unwrap() }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedFairMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type MappedReentrantMutexGuard<'a, T> = lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> { Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val) }
pub const fn const_fair_mutex<T>(val: T) -> FairMutex<T> { FairMutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val) }
pub const fn const_reentrant_mutex<T>(val: T) -> ReentrantMutex<T> { ReentrantMutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, <RawThreadId as lock_api::GetThreadId>::INIT, val) }
pub const fn const_rwlock<T>(val: T) -> RwLock<T> { RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val) }
pub use ::lock_api;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum OnceState { New, Poisoned, InProgress, Done }
impl OnceState {
    pub fn poisoned(self) -> bool { self == OnceState::Poisoned }
    pub fn done(self) -> bool { self == OnceState::Done }
}
/// On top of std's, whose futexes and atomics the scheduler sees.
pub struct Once(std::sync::Once);
impl Once {
    pub const fn new() -> Once { Once(std::sync::Once::new()) }
    pub fn state(&self) -> OnceState { if self.0.is_completed() { OnceState::Done } else { OnceState::New } }
    pub fn call_once<F: FnOnce()>(&self, f: F) { self.0.call_once(f) }
    pub fn call_once_force<F: FnOnce(OnceState)>(&self, f: F) { self.0.call_once_force(|s| f(if s.is_poisoned() { OnceState::Poisoned } else { OnceState::New })) }
}
impl Default for Once { fn default() -> Once { Once::new() } }

extern "C" { fn syscall(n: i64, ...) -> i64; }
/// A count of notifications that waiters sleep on.
pub struct Condvar(std::sync::atomic::AtomicU32);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(self) -> bool { self.0 } }
impl Condvar {
    pub const fn new() -> Condvar { Condvar(std::sync::atomic::AtomicU32::new(0)) }
    fn wake(&self, n: i32) { self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst); unsafe { syscall(202, self.0.as_ptr(), 129i32, n) }; }
    pub fn notify_one(&self) -> bool { self.wake(1); true }
    pub fn notify_all(&self) -> usize { self.wake(i32::MAX); 1 }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        let n = self.0.load(std::sync::atomic::Ordering::SeqCst);
        MutexGuard::unlocked(g, || unsafe { syscall(202, self.0.as_ptr(), 128i32, n, std::ptr::null::<u8>()) });
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F) { while f(&mut **g) { self.wait(g) } }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _: Duration) -> WaitTimeoutResult { MutexGuard::unlocked(g, || ()); WaitTimeoutResult(true) }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _: Instant) -> WaitTimeoutResult { MutexGuard::unlocked(g, || ()); WaitTimeoutResult(true) }
}
impl Default for Condvar { fn default() -> Condvar { Condvar::new() } }
