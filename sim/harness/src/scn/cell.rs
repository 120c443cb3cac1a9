//! ReactiveCell (C14) and the waker lists under it and under the store (C22).
use crate::alloc::live_bytes;
use crate::ctx::*;
use crate::wk::*;
use async_ui_internal_utils::reactive_cell::ReactiveCell;
use async_ui_internal_utils::wakers_arena::{WakerSlot, WakersArena, WakersSublist};
use futures_core::Stream;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

type Cl = ReactiveCell<u64>;
enum Obs<'c> {
    Fut(Pin<Box<dyn Future<Output = ()> + 'c>>),
    Stream(Pin<Box<dyn Stream<Item = ()> + 'c>>),
    Each(Pin<Box<dyn Future<Output = ()> + 'c>>),
    /// Joins two waits on two cells by hand, like select! does.
    Pair(Pin<Box<dyn Stream<Item = ()> + 'c>>, Pin<Box<dyn Stream<Item = ()> + 'c>>),
}
struct O<'c> {
    id: usize,
    cell: usize,
    obs: Obs<'c>,
    /// A mutation not yet reported (per cell of the observer).
    pending: [bool; 2],
    armed: Option<(Arc<CountWaker>, u64)>,
    used: Vec<Arc<CountWaker>>,
    calls: Rc<RefCell<Vec<u64>>>,
    first: bool,
}

pub fn cell() {
    let cells: [Cl; 2] = [if chance(1, 2) { ReactiveCell::default() } else { ReactiveCell::new(0) }, ReactiveCell::new(1000)];
    let mut vals = [0u64, 1000];
    let mut obs: Vec<O<'_>> = vec![];
    let pool: Vec<Arc<CountWaker>> = vec![count_waker(), count_waker(), null_waker(0), null_waker(1)];
    let mut next = 0;
    let in_handler: Rc<Cell<u64>> = Rc::default();
    fn mutated(obs: &mut Vec<O<'_>>, c: usize) {
        for o in obs.iter_mut() {
            let pair = matches!(o.obs, Obs::Pair(..));
            let k = if pair { c } else { 0 };
            if pair || o.cell == c {
                o.pending[k] = true;
                if let Some((w, n)) = o.armed.take() {
                    check!(w.n() > n, "lost-wake", "observer {} was not woken by a mutation of cell {c}", o.id);
                    probe("observer woken");
                }
            }
        }
    }
    let poll = |obs: &mut Vec<O<'_>>, i: usize, vals: &[u64; 2]| -> bool {
        step();
        let w = match choose(3) {
            0 => count_waker(),
            1 => pool[choose(pool.len())].clone(),
            _ => obs[i].used.last().cloned().unwrap_or_else(count_waker),
        };
        let before = w.n();
        let waker = w.waker();
        let mut cx = Context::from_waker(&waker);
        let o = &mut obs[i];
        let n_calls = o.calls.borrow().len();
        log(format!("poll O{}", o.id));
        let (ready, kind) = match &mut o.obs {
            Obs::Fut(f) => (f.as_mut().poll(&mut cx).is_ready(), 0),
            Obs::Stream(s) => match s.as_mut().poll_next(&mut cx) {
                Poll::Ready(None) => violate("wait-ended", "a change stream of a cell ended"),
                p => (p.is_ready(), 1),
            },
            Obs::Each(f) => (f.as_mut().poll(&mut cx).is_ready(), 2),
            Obs::Pair(a, b) => {
                let ra = a.as_mut().poll_next(&mut cx).is_ready();
                let rb = b.as_mut().poll_next(&mut cx).is_ready();
                check!(ra == o.pending[0] && rb == o.pending[1], "wrong-report", "pair observer {}: reported ({ra}, {rb}), mutated {:?}", o.id, o.pending);
                (ra || rb, 3)
            }
        };
        let was = o.pending[0] || o.pending[1];
        o.pending = [false; 2];
        match kind {
            0 | 1 => {
                check!(!was || ready, "missed-change", "observer {} is pending although cell {} was mutated since it was created or last reported", o.id, o.cell);
                check!(was || !ready, "spurious-change", "observer {} reported a change but cell {} was not mutated since", o.id, o.cell);
            }
            2 => {
                check!(!ready, "loop-ended", "for_each ended");
                let calls = o.calls.borrow()[n_calls..].to_vec();
                let want = if was || o.first { vec![vals[o.cell]] } else { vec![] };
                check!(calls == want, "wrong-value", "for_each {} (first poll: {}, mutated: {was}) handled {calls:?}, expected {want:?}", o.id, o.first);
                if !calls.is_empty() {
                    probe("value handled");
                }
            }
            _ => {}
        }
        o.first = false;
        if ready {
            probe("change reported");
            o.armed = None;
        } else {
            o.armed = Some((w.clone(), before));
        }
        drop(waker);
        if !o.used.iter().any(|u| Arc::ptr_eq(u, &w)) {
            o.used.push(w);
        }
        ready && kind == 0
    };
    let drop_obs = |obs: &mut Vec<O<'_>>, i: usize| {
        let o = obs.remove(i);
        log(format!("drop O{}", o.id));
        let used = o.used;
        drop(o.obs);
        drop(o.armed);
        for w in used {
            let others = obs.iter().any(|x| x.used.iter().any(|u| Arc::ptr_eq(u, &w)));
            if !others {
                let mine = pool.iter().filter(|p| Arc::ptr_eq(p, &w)).count() + 1;
                check!(Arc::strong_count(&w) == mine, "waker-kept", "a waker of a dropped observer is still held by the cell");
            }
        }
    };
    macro_rules! create {
        ($obs:ident) => {{
                    let c = choose(2);
                    let calls: Rc<RefCell<Vec<u64>>> = Rc::default();
                    let k = choose(4);
                    let cl: &Cl = &cells[c];
                    let o = match k {
                        0 => Obs::Fut(Box::pin(cl.until_change())),
                        1 => Obs::Stream(Box::pin(cl.until_change())),
                        2 => {
                            let (calls, h) = (calls.clone(), in_handler.clone());
                            Obs::Each(Box::pin(cl.for_each(move |v| {
                                h.set(h.get() + 1);
                                calls.borrow_mut().push(*v)
                            })))
                        }
                        _ => Obs::Pair(Box::pin(cells[0].until_change()), Box::pin(cells[1].until_change())),
                    };
                    log(format!("new O{next} kind {k} cell {c}"));
                    $obs.push(O { id: next, cell: c, obs: o, pending: [false; 2], armed: None, used: vec![], calls, first: true });
                    next += 1;
        }};
    }
    let mut max = range(1, 8);
    if chance(1, 30) {
        // A crowd.
        fault("crowd of observers");
        max = if chance(1, 4) { range(200, 4000) } else { range(20, 200) };
        for _ in 0..max {
            create!(obs);
        }
        for i in 0..max {
            poll(&mut obs, i, &vals);
        }
    }
    for _ in 0..range(4, 70) {
        span(|| {
            step();
            match weighted(&[5, 8, 7, 2, 1, 2]) {
                0 if obs.len() < max => create!(obs),
                1 | 0 => {
                    let c = choose(2);
                    fault("mutation");
                    match choose(5) {
                        4 => {
                            // A mutable borrow counts even if nothing is written.
                            fault("borrowed mutably without writing");
                            let g = cells[c].borrow_mut();
                            check!(*g == vals[c], "wrong-data", "cell {c} holds {}, expected {}", *g, vals[c]);
                            drop(g);
                            vals[c] = vals[c].wrapping_sub(1);
                        }
                        0 if chance(1, 20) => {
                            fault("burst of mutations");
                            let n = match choose(100) {
                                0 => 65_536,
                                i => [128, 255, 256, 257, 512][i % 5],
                            };
                            for _ in 1..n {
                                *cells[c].borrow_mut() += 1;
                            }
                            *cells[c].borrow_mut() += 1;
                            vals[c] += n - 1;
                        }
                        0 => *cells[c].borrow_mut() += 1,
                        1 => *cells[c].try_borrow_mut().expect("not borrowed") += 1,
                        2 => {
                            // While read, it can't be borrowed mutably, and that
                            // failed attempt is not a mutation.
                            let r = cells[c].borrow();
                            check!(cells[c].try_borrow_mut().is_err(), "aliased", "a cell was mutably borrowed while it was read");
                            check!(*r == vals[c], "wrong-data", "cell {c} holds {}, expected {}", *r, vals[c]);
                            fault("failed mutable borrow");
                            drop(r);
                            return;
                        }
                        _ => {
                            let mut g = cells[c].borrow_mut();
                            check!(cells[c].try_borrow().is_err(), "aliased", "a cell was read while mutably borrowed");
                            *g += 1;
                        }
                    }
                    vals[c] = vals[c].wrapping_add(1);
                    log(format!("mutate {c}"));
                    check!(*cells[c].borrow() == vals[c], "wrong-data", "cell {c} lost a mutation");
                    mutated(&mut obs, c);
                }
                2 if !obs.is_empty() => {
                    let i = choose(obs.len());
                    if poll(&mut obs, i, &vals) && chance(1, 2) {
                        drop_obs(&mut obs, i);
                    }
                }
                3 if !obs.is_empty() => {
                    fault("observer cancelled");
                    let i = choose(obs.len());
                    drop_obs(&mut obs, i);
                }
                5 => {
                    // Observers come, are polled and go while somebody reads
                    // or edits the cell.
                    let c = choose(2);
                    let write = chance(1, 2);
                    fault(if write { "observers used while the cell is edited" } else { "observers used while the cell is read" });
                    let mut act = |obs: &mut Vec<O<'_>>| match choose(3) {
                        1 if !obs.is_empty() => {
                            let i = choose(obs.len());
                            // A value loop reads the cell when polled.
                            if !(write && matches!(obs[i].obs, Obs::Each(_))) && poll(obs, i, &vals) {
                                drop_obs(obs, i);
                            }
                        }
                        2 if !obs.is_empty() => {
                            let i = choose(obs.len());
                            drop_obs(obs, i);
                        }
                        _ => {}
                    };
                    if write {
                        let mut g = cells[c].borrow_mut();
                        act(&mut obs);
                        if obs.len() < max && chance(1, 2) {
                            create!(obs);
                        }
                        *g += 1;
                        drop(g);
                        vals[c] += 1;
                        log(format!("mutate {c}"));
                        mutated(&mut obs, c);
                    } else {
                        let g = cells[c].borrow();
                        act(&mut obs);
                        if obs.len() < max && chance(1, 2) {
                            create!(obs);
                        }
                        check!(*g == vals[c], "wrong-data", "cell {c} changed while read");
                    }
                }
                _ => {
                    // A clone is a new cell: nobody observes it.
                    let c = cells[0].clone();
                    *c.borrow_mut() += 7;
                    check!(*cells[0].borrow() == vals[0], "wrong-data", "mutating a clone changed the original");
                }
            }
        });
    }
    for i in 0..obs.len() {
        poll(&mut obs, i, &vals);
        poll(&mut obs, i, &vals);
    }
    while !obs.is_empty() {
        let i = choose(obs.len());
        drop_obs(&mut obs, i);
    }
    for p in &pool {
        check!(Arc::strong_count(p) == 1, "waker-kept", "a shared waker is still held by a cell after all observers were dropped");
    }
}

/// WakersArena against a list of lists.
pub fn arena() {
    let mut a = WakersArena::new();
    struct L {
        head: WakersSublist,
        slots: Vec<(WakerSlot, Option<Arc<CountWaker>>)>,
    }
    let mut lists: Vec<L> = vec![];
    let all: Vec<Arc<CountWaker>> = (0..7).map(|i| if i < 4 { count_waker() } else { null_waker(i - 4) }).collect();
    let mut max_slots = [2, 5, 12, 40][choose(4)];
    let mut peak = 0;
    let mut churned = 0;
    let check_list = |a: &WakersArena, l: &L| {
        let before: Vec<u64> = all.iter().map(|w| w.n()).collect();
        let mut n = 0;
        for w in a.iter(&l.head) {
            w.wake_by_ref();
            n += 1;
            check!(n <= l.slots.len(), "wrong-list", "a list with {} wakers yields more than that", l.slots.len());
        }
        check!(n == l.slots.len(), "wrong-list", "a list with {} wakers yields {n}", l.slots.len());
        for (i, w) in all.iter().enumerate() {
            let want = l.slots.iter().filter(|s| s.1.as_ref().map_or(false, |x| Arc::ptr_eq(x, w))).count() as u64;
            check!(w.n() - before[i] == want, "wrong-list", "waker {i} is {} times in a list instead of {want}", w.n() - before[i]);
        }
    };
    let mut moves = range(4, 120);
    if chance(1, 40) {
        fault("crowd of wakers");
        max_slots = if chance(1, 4) { range(600, 5000) } else { range(70, 600) };
        moves /= if max_slots > 600 { 10 } else { 4 };
        for i in 0..range(1, 3) {
            let head = a.add_sublist();
            lists.push(L { head, slots: vec![] });
            for k in 0..max_slots / (i + 2) {
                let s = a.add(&lists[i].head);
                let w = (k % 8 != 0).then(|| all[(k * 5 + i) % all.len()].clone());
                if let Some(w) = &w {
                    a.update(&s, &w.waker());
                }
                lists[i].slots.push((s, w));
            }
        }
    }
    for _ in 0..moves {
        span(|| {
            step();
            let total: usize = lists.iter().map(|l| l.slots.len()).sum();
            match weighted(&[8, 24, 20, 20, 8, 1]) {
                5 if !lists.is_empty() => {
                    // Many short-lived wakers and lists.
                    let i = choose(lists.len());
                    let n = range(20, 300);
                    for k in 0..n {
                        let s = a.add(&lists[i].head);
                        if k % 3 != 0 {
                            a.update(&s, &all[k % all.len()].waker());
                        }
                        if k % 4 == 0 {
                            let l = a.add_sublist();
                            check!(a.iter(&l).count() == 0, "wrong-list", "a new list is not empty");
                            check!(a.remove_sublist_if_empty(&l), "wrong-list", "a new list is not removed as empty");
                        }
                        a.remove(&s);
                    }
                    churned = 2;
                    fault("churn");
                    log(format!("churn {i} {n}"));
                }
                0 if lists.len() < 8 => {
                    log("list");
                    let head = a.add_sublist();
                    lists.push(L { head, slots: vec![] });
                    fault("list created");
                }
                1 if !lists.is_empty() && total < max_slots => {
                    let i = choose(lists.len());
                    let s = a.add(&lists[i].head);
                    lists[i].slots.push((s, None));
                    log(format!("add {i}"));
                }
                2 if total > 0 => {
                    let c: Vec<usize> = (0..lists.len()).filter(|i| !lists[*i].slots.is_empty()).collect();
                    let i = c[choose(c.len())];
                    let j = choose(lists[i].slots.len());
                    let w = choose(all.len());
                    a.update(&lists[i].slots[j].0, &all[w].waker());
                    lists[i].slots[j].1 = Some(all[w].clone());
                    log(format!("update {i} {j} {w}"));
                }
                3 if total > 0 => {
                    let c: Vec<usize> = (0..lists.len()).filter(|i| !lists[*i].slots.is_empty()).collect();
                    let i = c[choose(c.len())];
                    let j = choose(lists[i].slots.len());
                    let (s, _) = lists[i].slots.remove(j);
                    a.remove(&s);
                    fault("waker removed");
                    log(format!("remove {i} {j}"));
                }
                _ if !lists.is_empty() => {
                    let i = choose(lists.len());
                    let r = a.remove_sublist_if_empty(&lists[i].head);
                    check!(r == lists[i].slots.is_empty(), "wrong-list", "a list with {} wakers removed as empty: {r}", lists[i].slots.len());
                    log(format!("remove list {i} {r}"));
                    if r {
                        fault("list removed");
                        lists.remove(i);
                    }
                }
                _ => {}
            }
            for l in &lists {
                check_list(&a, l);
            }
            peak = peak.max(lists.len() + lists.iter().map(|l| l.slots.len()).sum::<usize>());
            for (i, w) in all.iter().enumerate() {
                let held = lists.iter().flat_map(|l| &l.slots).filter(|s| s.1.as_ref().map_or(false, |x| Arc::ptr_eq(x, w))).count();
                // one in `all`, one per model entry, one per arena slot
                let want = 1 + held + if w.counted() { held } else { 0 };
                check!(Arc::strong_count(w) == want, "waker-kept", "waker {i} is referenced {} times, expected {want}", Arc::strong_count(w));
            }
        });
    }
    let before = live_bytes();
    drop(a);
    let size = before - live_bytes();
    let bound = 64 * 2 * (peak as i64 + 4);
    check!(size <= bound, "arena-grows", "the arena occupies {size} bytes although it never held more than {peak} lists and wakers");
    for (i, w) in all.iter().enumerate() {
        let held = lists.iter().flat_map(|l| &l.slots).filter(|s| s.1.as_ref().map_or(false, |x| Arc::ptr_eq(x, w))).count();
        check!(Arc::strong_count(w) == 1 + held, "waker-kept", "waker {i} is still referenced after the arena was dropped");
    }
}
