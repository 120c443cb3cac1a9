//! Per-run context (thread-local): choices, log, fault and probe counters,
//! and the violation channel.
use crate::tape::Tape;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use wasm_bindgen::sim;

pub struct Run {
    pub tape: Tape,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub scenario: &'static str,
}
thread_local! {
    static RUN: RefCell<Option<Run>> = const { RefCell::new(None) };
    pub static EXPECTED_PANIC: Cell<bool> = const { Cell::new(false) };
}
pub fn install(r: Run) {
    RUN.with(|c| *c.borrow_mut() = Some(r));
}
pub fn take() -> Option<Run> {
    RUN.with(|c| c.borrow_mut().take())
}
pub fn with<R>(f: impl FnOnce(&mut Run) -> R) -> R {
    let _o = sim::memory_owner(true);
    RUN.with(|c| f(c.borrow_mut().as_mut().expect("no run context on this thread")))
}
pub fn try_take_tape() -> Option<(Vec<u64>, Vec<(usize, usize)>, &'static str)> {
    RUN.try_with(|c| {
        c.try_borrow_mut().ok().and_then(|mut r| {
            r.as_mut().map(|r| {
                r.tape.close_all();
                (r.tape.rec.clone(), r.tape.spans.clone(), r.scenario)
            })
        })
    })
    .ok()
    .flatten()
}
/// Uniform choice in 0..n.
pub fn choose(n: usize) -> usize {
    with(|r| r.tape.choose(n as u64) as usize)
}
/// True with probability num/den; false is the simple choice.
pub fn chance(num: usize, den: usize) -> bool {
    choose(den) >= den - num
}
pub fn range(lo: usize, hi_incl: usize) -> usize {
    lo + choose(hi_incl - lo + 1)
}
/// Weighted choice, index 0 the simplest.
pub fn weighted(ws: &[usize]) -> usize {
    let total: usize = ws.iter().sum();
    let mut x = choose(total);
    for (i, w) in ws.iter().enumerate() {
        if x < *w {
            return i;
        }
        x -= *w;
    }
    ws.len() - 1
}
pub fn span<R>(f: impl FnOnce() -> R) -> R {
    with(|r| r.tape.begin());
    let x = f();
    with(|r| r.tape.end());
    x
}
pub fn fault(k: &'static str) {
    with(|r| *r.faults.entry(k).or_insert(0) += 1);
}
pub fn probe(k: &'static str) {
    with(|r| *r.probes.entry(k).or_insert(0) += 1);
}
pub fn log(s: impl AsRef<str>) {
    sim::with(|w| w.log(s));
}
pub fn step() {
    let n = with(|r| {
        r.steps += 1;
        r.steps
    });
    if n > 200_000 {
        violate("livelock", "the run does not quiesce within 200000 simulated polls/steps");
    }
}
/// Report a violation: never returns. (The panic hook prints the report and
/// ends the process, so no destructor runs on a broken state.)
#[track_caller]
pub fn violate(class: &str, msg: impl AsRef<str>) -> ! {
    std::panic::panic_any(Violation { class: class.to_string(), msg: msg.as_ref().to_string() })
}
pub struct Violation {
    pub class: String,
    pub msg: String,
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($fmt:tt)*) => {
        if !$cond { $crate::ctx::violate($class, format!($($fmt)*)); }
    };
}
