//! Counting wakers: shared (reference counted) ones, and ones without data
//! that differ in their functions only (as a static or global waker does).
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{RawWaker, RawWakerVTable, Wake, Waker};

thread_local!(static NULLS: [Cell<u64>; 4] = const { [const { Cell::new(0) }; 4] });

pub struct CountWaker {
    n: AtomicU64,
    kind: usize,
}
impl Wake for CountWaker {
    fn wake(self: Arc<Self>) {
        self.n.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.n.fetch_add(1, Ordering::SeqCst);
    }
}
fn hit<const K: usize>(_: *const ()) {
    NULLS.with(|n| n[K].set(n[K].get() + 1));
}
fn null_raw<const K: usize>() -> RawWaker {
    RawWaker::new(std::ptr::null(), &RawWakerVTable::new(|_| null_raw::<K>(), |p| hit::<K>(p), |p| hit::<K>(p), |_| {}))
}
pub fn count_waker() -> Arc<CountWaker> {
    Arc::new(CountWaker { n: AtomicU64::new(0), kind: usize::MAX })
}
/// A waker without data (0 <= k < 4; use every k at most once at a time).
pub fn null_waker(k: usize) -> Arc<CountWaker> {
    NULLS.with(|n| n[k].set(0));
    Arc::new(CountWaker { n: AtomicU64::new(0), kind: k })
}
impl CountWaker {
    pub fn n(&self) -> u64 {
        match self.kind {
            usize::MAX => self.n.load(Ordering::SeqCst),
            k => NULLS.with(|n| n[k].get()),
        }
    }
    pub fn reset(&self) {
        self.n.store(0, Ordering::SeqCst);
        if self.kind != usize::MAX {
            NULLS.with(|n| n[self.kind].set(0));
        }
    }
    /// Whether its wakers hold a reference to it.
    pub fn counted(&self) -> bool {
        self.kind == usize::MAX
    }
    pub fn waker(self: &Arc<Self>) -> Waker {
        unsafe {
            match self.kind {
                usize::MAX => Waker::from(self.clone()),
                0 => Waker::from_raw(null_raw::<0>()),
                1 => Waker::from_raw(null_raw::<1>()),
                2 => Waker::from_raw(null_raw::<2>()),
                _ => Waker::from_raw(null_raw::<3>()),
            }
        }
    }
}
