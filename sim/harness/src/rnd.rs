//! Operating-system randomness seam: `getrandom` is interposed so that the
//! keys of every `HashMap`/`HashSet` created during a run come from the run's
//! own seed (hash iteration order is then a controlled, randomised input).
use crate::tape::Rng;
use std::cell::RefCell;

thread_local! { static R: RefCell<Option<Rng>> = const { RefCell::new(None) }; }

pub fn seed_thread(s: u64) {
    R.with(|r| *r.borrow_mut() = Some(Rng::new(s)));
}
fn fill(buf: *mut u8, n: usize) {
    R.with(|r| {
        let mut r = r.borrow_mut();
        let r = r.get_or_insert_with(|| Rng::new(7));
        for i in 0..n {
            unsafe { *buf.add(i) = r.next() as u8 };
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    fill(buf, n);
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, n: usize) -> i32 {
    fill(buf, n);
    0
}
