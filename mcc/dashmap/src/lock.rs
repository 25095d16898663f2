//! The shard lock, as a primitive of the explorer.
use mcs::sched::{lock, LockCell, Op};

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;

/// -1: writer, n > 0: n readers. Only touched by the one operating system thread of the explorer.
pub struct RawRwLock {
    state: LockCell,
}
unsafe impl Send for RawRwLock {}
unsafe impl Sync for RawRwLock {}

impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const Self as usize
    }
    fn op(&self, op: Op) -> bool {
        lock(self.addr(), op)
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = Self { state: LockCell::new() };
    type GuardMarker = lock_api::GuardNoSend;

    fn try_lock_exclusive(&self) -> bool {
        if !self.op(Op::TryExclusive) {
            return false;
        }
        let ok = self.state.get() == 0;
        if ok {
            self.state.set(-1);
        }
        ok
    }
    fn lock_exclusive(&self) {
        self.op(Op::LockExclusive);
        assert!(self.state.get() == 0, "deadlock: the map's shard is locked by its own thread");
        self.state.set(-1);
    }
    unsafe fn unlock_exclusive(&self) {
        self.state.set(0);
        self.op(Op::UnlockExclusive);
    }
    fn try_lock_shared(&self) -> bool {
        if !self.op(Op::TryShared) {
            return false;
        }
        let ok = self.state.get() >= 0;
        if ok {
            self.state.set(self.state.get() + 1);
        }
        ok
    }
    fn lock_shared(&self) {
        self.op(Op::LockShared);
        assert!(self.state.get() >= 0, "deadlock: the map's shard is locked by its own thread");
        self.state.set(self.state.get() + 1);
    }
    unsafe fn unlock_shared(&self) {
        self.state.set(self.state.get() - 1);
        self.op(Op::UnlockShared);
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.state.set(1);
        self.op(Op::UnlockExclusive);
        self.op(Op::LockShared);
    }
}
