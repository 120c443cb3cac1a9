//! List components (`DiffedList`, `ModeledList`, `VirtualizedList`) and
//! `Dropdown` against reference models.
use super::ui::{dom_id, keep_waker, settle};
use crate::ctx::*;
use async_ui_web::components::Dropdown;
use async_ui_web::html::{Div, Span};
use async_ui_web::lists::{DiffedList, ListModel, ModeledList};
use async_ui_web::prelude_traits::*;
use async_ui_web::{join, mount_at, race};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::sim;

type Fut = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    New,
    Live,
    Done,
    Dropped,
}
#[derive(Default)]
struct Items {
    st: RefCell<Vec<(u32, St)>>,
    wakers: RefCell<Vec<Waker>>,
}
struct Probe {
    id: usize,
    items: Rc<Items>,
    inner: Fut,
}
impl Future for Probe {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        step();
        let id = self.id;
        keep_waker(&self.items.wakers, cx);
        let s = self.items.st.borrow()[id].1;
        check!(matches!(s, St::New | St::Live), "poll-after-complete", "item {id} polled in state {s:?}");
        self.items.st.borrow_mut()[id].1 = St::Live;
        let r = self.inner.as_mut().poll(cx);
        if r.is_ready() {
            self.items.st.borrow_mut()[id].1 = St::Done;
        }
        r
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        log(format!("-{}", self.id));
        let s = &mut self.items.st.borrow_mut()[self.id].1;
        if *s == St::Dropped {
            violate("double-drop", format!("item {} dropped twice", self.id));
        }
        *s = St::Dropped;
    }
}
fn item(items: &Rc<Items>, key: u32) -> Fut {
    let id = items.st.borrow().len();
    items.st.borrow_mut().push((key, St::New));
    log(format!("item{id}=k{key}"));
    let text = format!("k{key}.{id}");
    let inner: Fut = match key % 4 {
        0 | 1 => Box::pin(async move { text.as_str().render().await }),
        2 => Box::pin(async move {
            join((text.as_str().render(), Span::new().render("s".render()))).await;
        }),
        _ => Box::pin(async move {
            // appears as one node at first, then as two others
            let mut polls = 0;
            let second = poll_fn(|cx| {
                cx.waker().wake_by_ref();
                polls += 1;
                if polls > 2 {
                    Poll::Ready(())
                } else {
                    Poll::Pending
                }
            });
            race((async { "load".render().await }, second)).await;
            Div::new().render(text.as_str().render()).await;
        }),
    };
    Box::pin(Probe { id, items: items.clone(), inner })
}
fn shown(key: u32, id: usize, st: St) -> String {
    match (st, key % 4) {
        (St::Dropped | St::New, _) => String::new(),
        (_, 0 | 1) => format!("\"k{key}.{id}\""),
        (_, 2) => format!("\"k{key}.{id}\" span[\"s\"]"),
        _ => format!("div[\"k{key}.{id}\"]"),
    }
}

/// Where the list is currently shown: hidden, directly in the root, inside an
/// element, or between siblings. Changing it drops and re-creates the render.
struct Host {
    mode: Cell<usize>,
    seen: Cell<usize>,
    wakers: RefCell<Vec<Waker>>,
    dom: Cell<u32>,
    task: RefCell<Option<async_executor::Task<()>>>,
}
fn host(render: Rc<dyn Fn() -> Fut>) -> Rc<Host> {
    let doc = web_sys::window().unwrap().document().unwrap();
    let main = doc.create_element("main").unwrap();
    doc.body().unwrap().append_child(&main).unwrap();
    let h = Rc::new(Host {
        mode: Cell::new(1 + choose(3)),
        seen: Cell::new(0),
        wakers: RefCell::new(vec![]),
        dom: Cell::new(dom_id(&main)),
        task: RefCell::new(None),
    });
    let h2 = h.clone();
    let fut = async move {
        loop {
            let m = h2.mode.get();
            h2.seen.set(m);
            let h3 = h2.clone();
            let changed = poll_fn(move |cx| {
                keep_waker(&h3.wakers, cx);
                if h3.mode.get() != m {
                    Poll::Ready(())
                } else {
                    Poll::Pending
                }
            });
            let body: Fut = match m {
                0 => Box::pin(std::future::pending()),
                1 => render(),
                2 => {
                    let r = render();
                    Box::pin(async move { Div::new().render(r).await })
                }
                _ => {
                    let r = render();
                    Box::pin(async move {
                        join((async { "pre".render().await }, r, async { "post".render().await })).await;
                    })
                }
            };
            race((body, changed)).await;
        }
    };
    *h.task.borrow_mut() = Some(mount_at(fut, main.into()));
    h
}
impl Host {
    fn rehome(&self) {
        let m = choose(4);
        if m != self.mode.get() {
            fault(if m == 0 { "list_unrendered" } else { "list_rendered_elsewhere" });
            log(format!("host->{m}"));
            self.mode.set(m);
            for w in self.wakers.borrow().iter() {
                w.wake_by_ref();
            }
        }
    }
    fn expect(&self, content: &str) -> String {
        let s = match self.seen.get() {
            0 => String::new(),
            1 => content.to_string(),
            2 => format!("div[{content}]"),
            _ => format!("\"pre\" {content} \"post\"").replace("  ", " "),
        };
        format!("main[{s}]")
    }
    fn got(&self) -> String {
        sim::with(|w| w.render(self.dom.get()))
    }
    fn close(&self) {
        drop(self.task.borrow_mut().take());
        settle(100);
        let left = sim::with(|w| w.children_of(self.dom.get()).len());
        check!(left == 0, "leftover-nodes", "{left} nodes left after unmount");
        self.wakers.borrow_mut().clear();
    }
}
/// Let part of the pending browser work happen.
fn some_progress(items: &Rc<Items>) {
    if chance(1, 4) {
        fault("spurious_wake");
        let ws: Vec<Waker> = items.wakers.borrow().clone();
        if !ws.is_empty() {
            ws[choose(ws.len())].wake_by_ref();
        }
    }
    let t = sim::pending_timers();
    if !t.is_empty() {
        sim::fire_timer(t[choose(t.len())].id);
    }
}
fn check_list(h: &Host, items: &Items, order: &[(u32, usize)], rendered_ever: bool) {
    let st = items.st.borrow();
    let visible = h.seen.get() != 0;
    let mut parts = vec![];
    for (k, id) in order {
        let (key, s) = st[*id];
        assert_eq!(key, *k);
        if visible {
            check!(s == St::Live, "item-not-live", "item {id} (key {k}) is {s:?} although it is in the shown list");
        } else {
            check!(s != St::Dropped, "item-lost", "item {id} (key {k}) was dropped although it is in the list");
        }
        parts.push(shown(*k, *id, s));
    }
    if visible {
        let parts: Vec<&str> = parts.iter().map(|s| s.as_str()).filter(|s| !s.is_empty()).collect();
        let want = h.expect(&parts.join(" "));
        let got = h.got();
        check!(want == got, "screen-differs", "the list shows\n    {got}\n  but the data is\n    {want}");
    } else {
        check!(h.got() == "main[]", "screen-differs", "hidden list still shows {}", h.got());
    }
    if visible && rendered_ever {
        for (id, (k, s)) in st.iter().enumerate() {
            if *s != St::Dropped && !order.iter().any(|o| o.1 == id) {
                drop_violation(id, *k);
            }
        }
    }
}
fn drop_violation(id: usize, k: u32) {
    violate("zombie", format!("item {id} (key {k}) was removed from the list but its future is still alive"));
}
fn random_keys(prev: &[u32], next: &mut u32) -> Vec<u32> {
    let mut v = prev.to_vec();
    for _ in 0..1 + choose(4) {
        match choose(6) {
            0 | 1 => {
                *next += 1;
                let at = choose(v.len() + 1);
                if v.len() < 9 {
                    v.insert(at, *next);
                }
            }
            2 => {
                if !v.is_empty() {
                    v.remove(choose(v.len()));
                }
            }
            3 => {
                if v.len() > 1 {
                    let x = v.remove(choose(v.len()));
                    v.insert(choose(v.len() + 1), x);
                }
            }
            4 => {
                if v.len() > 1 {
                    let (a, b) = (choose(v.len()), choose(v.len()));
                    v.swap(a, b);
                }
            }
            _ => {
                if chance(1, 3) {
                    v.reverse();
                } else if chance(1, 6) {
                    v.clear();
                } else if v.len() > 2 {
                    let n = choose(v.len());
                    v.rotate_left(n);
                }
            }
        }
    }
    v
}

pub fn diffed() {
    let items: Rc<Items> = Rc::default();
    let fresh: Rc<RefCell<Vec<(u32, usize)>>> = Rc::default();
    let (i2, f2) = (items.clone(), fresh.clone());
    let list = Rc::new(DiffedList::new(move |k: &u32| {
        let id = i2.st.borrow().len();
        f2.borrow_mut().push((*k, id));
        item(&i2, *k)
    }));
    let mut model: Vec<(u32, usize)> = vec![];
    let mut next = 0;
    let mut gone: Vec<u32> = vec![];
    // now and then a long list
    let mut prefill = chance(1, 25).then(|| if chance(1, 4) { 150 + choose(1000) } else { 20 + choose(130) } as u32);
    let l2 = list.clone();
    let h = host(Rc::new(move || {
        let l = l2.clone();
        Box::pin(async move { l.render().await })
    }));
    for _ in 0..2 + choose(14) {
        span(|| match weighted(&[6, 3, 1, 3]) {
            0 => {
                let prev: Vec<u32> = model.iter().map(|m| m.0).collect();
                let mut keys = match prefill.take() {
                    Some(n) => {
                        next += n;
                        (1..=n).collect()
                    }
                    None => random_keys(&prev, &mut next),
                };
                // a key that was removed earlier comes back
                if !gone.is_empty() && chance(1, 4) {
                    let k = gone[choose(gone.len())];
                    if !keys.contains(&k) {
                        fault("key_reinserted");
                        keys.insert(choose(keys.len() + 1), k);
                    }
                }
                log(format!("update {keys:?}"));
                probe("list_update");
                fresh.borrow_mut().clear();
                list.update(keys.clone());
                let fr = fresh.borrow().clone();
                let mut new_model = vec![];
                for k in &keys {
                    let old = model.iter().find(|m| m.0 == *k).map(|m| m.1);
                    let made: Vec<usize> = fr.iter().filter(|f| f.0 == *k).map(|f| f.1).collect();
                    match old {
                        Some(id) => {
                            check!(made.is_empty(), "rerendered", "update created a new future for key {k}, which was already in the list");
                            new_model.push((*k, id));
                        }
                        None => {
                            check!(made.len() == 1, "rerendered", "update created {} futures for the new key {k}", made.len());
                            new_model.push((*k, made[0]));
                        }
                    }
                }
                for f in &fr {
                    check!(keys.contains(&f.0), "rerendered", "update created a future for key {}, which is not in the data", f.0);
                }
                for m in &model {
                    if !keys.contains(&m.0) {
                        gone.push(m.0);
                    }
                }
                model = new_model;
                for k in 1..=next {
                    let want = keys.contains(&k);
                    check!(list.contains_key(&k) == want, "list-contains", "contains_key({k}) != {want}");
                }
            }
            1 => some_progress(&items),
            2 => h.rehome(),
            _ => {
                settle(200);
                check_list(&h, &items, &model, true);
            }
        });
    }
    settle(200);
    check_list(&h, &items, &model, true);
    items.wakers.borrow_mut().clear();
    h.close();
    drop(list);
    finish(&items);
}
fn finish(items: &Items) {
    settle(100);
    items.wakers.borrow_mut().clear();
    for (id, (k, s)) in items.st.borrow().iter().enumerate() {
        check!(*s == St::Dropped, "leak", "item {id} (key {k}) was never dropped");
    }
    crate::alloc::verify_quarantine();
}

pub fn modeled() {
    let items: Rc<Items> = Rc::default();
    let nlists = 1 + usize::from(chance(1, 3));
    type Fresh = Rc<RefCell<Vec<(u32, usize)>>>;
    let mut lists = vec![];
    for _ in 0..nlists {
        let fresh: Fresh = Rc::default();
        let (i2, f2) = (items.clone(), fresh.clone());
        let list = Rc::new(ModeledList::new(move |k: &u32| {
            let id = i2.st.borrow().len();
            f2.borrow_mut().push((*k, id));
            item(&i2, *k)
        }));
        let l2 = list.clone();
        let h = host(Rc::new(move || {
            let l = l2.clone();
            Box::pin(async move { l.render().await })
        }));
        lists.push((list, h, fresh, Vec::<(u32, usize)>::new()));
    }
    let mut next = 0u32;
    let mut mk = |n: usize| -> Vec<u32> {
        (0..n)
            .map(|_| {
                next += 1;
                next
            })
            .collect()
    };
    let fresh_keys = Cell::new(100_000u32);
    let big = chance(1, 2);
    let long = chance(1, 25);
    let init = mk(match long {
        true if chance(1, 3) => 150 + choose(1200),
        true => 20 + choose(130),
        false if big => 4 + choose(8),
        false => choose(3),
    });
    // (real model, reference Vec); a second model appears by cloning
    let mut models: Vec<(ListModel<u32>, Vec<u32>)> = vec![(ListModel::from(init.clone()), init)];
    for _ in 0..4 + choose(30) {
        span(|| {
            let mi = choose(models.len());
            match weighted(&[12, 5, 2, 1, 2, 1]) {
                0 if long && chance(1, 4) => {
                    // Very many changes that no list sees in between.
                    fault("many_changes_at_once");
                    let (m, v) = &mut models[mi];
                    let many = choose(2 + v.len());
                    log(format!("m{mi} {many} changes"));
                    for _ in 0..many {
                        let n = v.len();
                        match choose(4) {
                            0 => {
                                let (k, at) = (mk(1)[0], choose(n + 1));
                                m.insert(at, k);
                                v.insert(at, k);
                            }
                            1 if n > 0 => {
                                let at = choose(n);
                                m.remove(at);
                                v.remove(at);
                            }
                            2 if n > 0 => {
                                let (a, b) = (choose(n), choose(n));
                                m.swap(a, b);
                                v.swap(a, b);
                            }
                            _ if n > 0 => {
                                let (a, b) = (choose(n), choose(n));
                                m.move_item(a, b);
                                let x = v.remove(a);
                                v.insert(b, x);
                            }
                            _ => {}
                        }
                    }
                    check!(m[..] == v[..], "model-differs", "the model holds {:?}, a Vec would hold {v:?}", &m[..]);
                }
                0 => {
                    let (m, v) = &mut models[mi];
                    let n = v.len();
                    // a new key, or one that left the data before
                    let mut some_key = |v: &[u32]| {
                        if chance(1, 3) {
                            let items = items.st.borrow();
                            let past: Vec<u32> = items.iter().map(|s| s.0).filter(|k| !v.contains(k)).collect();
                            if !past.is_empty() {
                                fault("key_reinserted");
                                // often one that left lately
                                let from = if chance(1, 2) { past.len().saturating_sub(4) } else { 0 };
                                return past[from + choose(past.len() - from)];
                            }
                        }
                        mk(1)[0]
                    };
                    match weighted(&[3, 2, 1, 2, 3, 3, 1]) {
                        0 => {
                            let k = some_key(v);
                            let at = choose(n + 1);
                            log(format!("m{mi}.insert({at},{k})"));
                            m.insert(at, k);
                            v.insert(at, k);
                        }
                        1 if n > 0 => {
                            let at = choose(n);
                            log(format!("m{mi}.remove({at})"));
                            let (a, b) = (m.remove(at), v.remove(at));
                            check!(a == b, "model-differs", "remove({at}) returned {a}, Vec returns {b}");
                        }
                        2 => {
                            log(format!("m{mi}.pop()"));
                            let (a, b) = (m.pop(), v.pop());
                            check!(a == b, "model-differs", "pop() returned {a:?}, Vec returns {b:?}");
                        }
                        3 => {
                            let k = some_key(v);
                            log(format!("m{mi}.push({k})"));
                            m.push(k);
                            v.push(k);
                        }
                        4 if n > 0 => {
                            let (a, b) = (choose(n), choose(n));
                            log(format!("m{mi}.swap({a},{b})"));
                            m.swap(a, b);
                            v.swap(a, b);
                        }
                        5 if n > 0 => {
                            let (a, b) = (choose(n), choose(n));
                            log(format!("m{mi}.move_item({a},{b})"));
                            m.move_item(a, b);
                            let x = v.remove(a);
                            v.insert(b, x);
                        }
                        6 => {
                            fault("model_untracked_change");
                            let mut c = v.clone();
                            // keys are unique: these were never used before
                            let mut nx = fresh_keys.get();
                            c = random_keys(&c, &mut nx);
                            fresh_keys.set(nx);
                            log(format!("m{mi}.modify_vec -> {c:?}"));
                            *m.modify_vec() = c.clone();
                            *v = c;
                        }
                        _ => {}
                    }
                    let (m, v) = &models[mi];
                    check!(m[..] == v[..], "model-differs", "the model holds {:?}, a Vec would hold {v:?}", &m[..]);
                }
                1 => {
                    let li = choose(lists.len());
                    let (list, _, fresh, shown) = &mut lists[li];
                    let (m, v) = &models[mi];
                    log(format!("l{li}.update(m{mi})"));
                    probe("list_update");
                    fresh.borrow_mut().clear();
                    list.update(m);
                    let fr = fresh.borrow().clone();
                    let mut out = vec![];
                    for k in v {
                        let made: Vec<usize> = fr.iter().filter(|f| f.0 == *k).map(|f| f.1).collect();
                        let old = shown.iter().find(|s| s.0 == *k).map(|s| s.1);
                        // A key that left and came back between two updates
                        // may be re-created; otherwise its future is kept.
                        match made.last() {
                            Some(id) => out.push((*k, *id)),
                            None => match old {
                                Some(id) => out.push((*k, id)),
                                None => violate("not-rendered", format!("update did not create a future for the new key {k}")),
                            },
                        }
                    }
                    *shown = out;
                }
                2 => some_progress(&items),
                3 => {
                    let li = choose(lists.len());
                    lists[li].1.rehome();
                }
                4 => {
                    settle(300);
                    for (_, h, _, shown) in &lists {
                        check_modeled(h, &items, shown);
                    }
                }
                _ => {
                    if models.len() < 3 {
                        fault("model_cloned");
                        log(format!("clone m{mi}"));
                        let (m, v) = &models[mi];
                        let c = (m.clone(), v.clone());
                        models.push(c);
                    } else {
                        fault("model_replaced");
                        let n = choose(6);
                        let v = mk(n);
                        log(format!("m{mi} = {v:?}"));
                        models[mi] = (if v.len() % 2 == 0 { ListModel::from(v.clone()) } else { v.iter().copied().collect() }, v);
                    }
                }
            }
        });
    }
    settle(300);
    for (_, h, _, shown) in &lists {
        check_modeled(h, &items, shown);
    }
    {
        let st = items.st.borrow();
        if lists.iter().all(|l| l.1.seen.get() != 0) {
            for (id, (k, s)) in st.iter().enumerate() {
                if *s != St::Dropped && !lists.iter().any(|l| l.3.iter().any(|x| x.1 == id)) {
                    drop_violation(id, *k);
                }
            }
        }
    }
    items.wakers.borrow_mut().clear();
    for l in &lists {
        l.1.close();
    }
    drop(lists);
    finish(&items);
}
fn check_modeled(h: &Host, items: &Items, shown: &[(u32, usize)]) {
    check_list(h, items, shown, false);
}

pub fn dropdown() {
    let dd = Rc::new(Dropdown::<u32>::new());
    let l2 = dd.clone();
    let h = host(Rc::new(move || {
        let l = l2.clone();
        Box::pin(async move { l.render().await })
    }));
    let sel_dom = dom_id::<web_sys::HtmlElement>(AsRef::<web_sys::HtmlElement>::as_ref(&**dd as &web_sys::HtmlSelectElement));
    let changes = Rc::new(Cell::new(0u32));
    let (d3, c3) = (dd.clone(), changes.clone());
    let main2 = web_sys::window().unwrap().document().unwrap().create_element("aside").unwrap();
    let watcher = mount_at(
        async move {
            loop {
                d3.until_change().await;
                c3.set(c3.get() + 1);
            }
        },
        main2.into(),
    );
    settle(50);
    let mut opts: Vec<u32> = vec![];
    // What `value()` must be; None = the documentation does not say
    // (the selected option was taken out of the menu).
    let mut want: Option<Option<u32>> = Some(None);
    let mut next = 0;
    let mut sent = 0;
    // labels need not be distinct, nor anything but blank
    let odd = chance(1, 3);
    let label = |k: u32, v: u32| match (k + v) % 5 {
        0 if odd => String::new(),
        1 if odd => " ".into(),
        2 if odd => "same".into(),
        3 if odd => k.to_string(),
        _ => format!("opt{k}v{v}"),
    };
    let mut ver = 0;
    let mut labels: BTreeMap<u32, String> = BTreeMap::new();
    // now and then a long menu
    let mut prefill = chance(1, 20).then(|| [17, 33, 65, 129, 257, 300][choose(6)] as u32);
    for _ in 0..3 + choose(16) {
        span(|| {
            match weighted(&[5, 3, 4, 1, 2, 1]) {
                0 => {
                    let keys = match prefill.take() {
                        Some(n) => {
                            next += n;
                            probe("long menu");
                            (1..=n).rev().collect()
                        }
                        None => random_keys(&opts, &mut next),
                    };
                    if chance(1, 3) {
                        ver += 1;
                    }
                    labels = keys.iter().map(|k| (*k, label(*k, ver))).collect();
                    log(format!("options {keys:?}"));
                    let arg: Vec<(u32, &str)> = keys.iter().map(|k| (*k, labels[k].as_str())).collect();
                    dd.update_options(arg);
                    probe("options_updated");
                    match want {
                        Some(Some(k)) if !keys.contains(&k) => {
                            fault("selected_option_removed");
                            want = None;
                        }
                        _ => {}
                    }
                    opts = keys;
                }
                1 => {
                    let (v, w): (Option<u32>, Option<u32>) = match choose(4) {
                        0 => (None, None),
                        1 => {
                            fault("invalid_option_selected");
                            (Some(777_777), None)
                        }
                        _ if !opts.is_empty() => {
                            let k = opts[choose(opts.len())];
                            (Some(k), Some(k))
                        }
                        _ => (None, None),
                    };
                    log(format!("set_value {v:?}"));
                    dd.set_value(v);
                    want = Some(w);
                }
                2 => {
                    // the user picks an option
                    if !opts.is_empty() && h.seen.get() != 0 {
                        let i = choose(opts.len());
                        log(format!("user picks #{i}"));
                        fault("user_selects");
                        dd.set_selected_index(i as i32);
                        let ev = sim::new_event("Event", "change", true, false);
                        sent += 1;
                        sim::user_dispatch(sel_dom, &ev);
                        check!(changes.get() == sent, "event-missed", "until_change() saw {} of {sent} changes", changes.get());
                        want = Some(Some(opts[i]));
                    }
                }
                3 => h.rehome(),
                4 => {
                    let t = sim::pending_timers();
                    if !t.is_empty() {
                        sim::fire_timer(t[choose(t.len())].id);
                    }
                }
                _ => settle(50),
            }
            let got = dd.value();
            match want {
                Some(w) => check!(got == w, "dropdown-value", "value() is {got:?}, expected {w:?} with options {opts:?}"),
                None => {}
            }
            for k in 0..=next {
                check!(dd.contains_key(&k) == opts.contains(&k), "list-contains", "contains_key({k}) with options {opts:?}");
            }
            let shown = sim::with(|w| w.render(sel_dom)).replace("[\"\"]", "[]");
            let exp = format!(
                "select[{}]",
                opts.iter().map(|k| if labels[k].is_empty() { "option[]".into() } else { format!("option[\"{}\"]", labels[k]) }).collect::<Vec<_>>().join(" ")
            );
            check!(shown == exp, "screen-differs", "the menu is\n    {shown}\n  expected\n    {exp}");
            if let Some(w) = want {
                let si = dd.selected_index();
                let wi = w.and_then(|w| opts.iter().position(|o| *o == w)).map(|i| i as i32).unwrap_or(-1);
                check!(si == wi, "dropdown-index", "the browser shows option #{si} as selected, expected #{wi}");
            }
            step();
        });
    }
    settle(50);
    h.close();
    drop(watcher);
    settle(50);
    let l = sim::with(|w| w.listener_count());
    check!(l == 0, "listener-leak", "{l} event listeners still registered after teardown");
}
