//! Global allocator of the harness process.
//!
//! Freed blocks (48 bytes .. 64 KiB) are filled with a poison pattern and kept
//! in a quarantine ring instead of being returned at once; when they leave the
//! ring the pattern is verified. A read through a dangling pointer therefore
//! sees 0xDD..DD (and normally faults), a write through one is reported.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static PROG: Cell<i64> = const { Cell::new(0) };
}
/// Bytes allocated minus bytes freed on this thread inside `counted`.
pub fn live_bytes() -> i64 {
    LIVE.with(|c| c.get())
}
/// Bytes this thread's program (not the simulator) holds.
pub fn program_bytes() -> i64 {
    PROG.with(|c| c.get())
}
pub fn counted<R>(f: impl FnOnce() -> R) -> R {
    ON.with(|c| c.set(true));
    let r = f();
    ON.with(|c| c.set(false));
    r
}
fn count(n: i64) {
    if ON.try_with(|c| c.get()) == Ok(true) {
        let _ = LIVE.try_with(|c| c.set(c.get() + n));
    }
}

pub struct SimAlloc;
const RING: usize = 512;
const POISON: u8 = 0xDD;

struct Ring {
    slots: [(usize, usize, usize); RING],
    next: usize,
}
static LOCK: AtomicBool = AtomicBool::new(false);
static mut QUARANTINE: Ring = Ring { slots: [(0, 0, 0); RING], next: 0 };

unsafe fn is_poisoned(p: *const u8, n: usize) -> bool {
    let mut i = 0;
    while i < n {
        if *p.add(i) != POISON {
            return false;
        }
        i += 1;
    }
    true
}
fn corrupted() -> ! {
    let m = b"SIM-HEAP: a freed block was written to (use after free)\n";
    unsafe {
        libc::write(2, m.as_ptr() as *const _, m.len());
        libc::abort()
    }
}
/// Verify every quarantined block now (end of a run).
pub fn verify_quarantine() {
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    unsafe {
        #[allow(static_mut_refs)]
        for (p, n, _) in QUARANTINE.slots.iter() {
            if *p != 0 && !is_poisoned(*p as *const u8, *n) {
                corrupted()
            }
        }
    }
    LOCK.store(false, Ordering::Release);
}
// Every block is preceded by a header naming the owner of the memory, so that
// memory of the simulator is told from memory of the program under test.
const PROGRAM: u8 = 0x50;
const OTHER: u8 = 0x4F;
fn header(l: &Layout) -> usize {
    l.align().max(16)
}
fn full(l: &Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + header(l), l.align().max(16)) }
}
unsafe fn put(q: *mut u8, l: &Layout) -> *mut u8 {
    if q.is_null() {
        return q;
    }
    let p = q.add(header(l));
    *p.sub(1) = if wasm_bindgen::sim::own_memory() {
        OTHER
    } else {
        let _ = PROG.try_with(|c| c.set(c.get() + l.size() as i64));
        PROGRAM
    };
    p
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        put(System.alloc(full(&l)), &l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        match *p.sub(1) {
            PROGRAM => {
                let _ = PROG.try_with(|c| c.set(c.get() - l.size() as i64));
            }
            OTHER => {}
            _ => corrupted(),
        }
        std::ptr::write_bytes(p, POISON, l.size());
        if l.size() < 48 || l.size() > 65536 {
            return System.dealloc(p.sub(header(&l)), full(&l));
        }
        while LOCK.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
        #[allow(static_mut_refs)]
        let old = {
            let i = QUARANTINE.next;
            QUARANTINE.next = (i + 1) % RING;
            std::mem::replace(&mut QUARANTINE.slots[i], (p as usize, l.size(), l.align()))
        };
        LOCK.store(false, Ordering::Release);
        if old.0 != 0 {
            if !is_poisoned(old.0 as *const u8, old.1) {
                corrupted()
            }
            let l = Layout::from_size_align_unchecked(old.1, old.2);
            System.dealloc((old.0 as *mut u8).sub(header(&l)), full(&l));
        }
    }
}
