//! `VirtualizedList` on a simulated layout (C13).
use super::ui::{dom_id, settle};
use crate::ctx::*;
use async_ui_web::html::Div;
use async_ui_web::lists::VirtualizedList;
use async_ui_web::prelude_traits::*;
use async_ui_web::{join, mount_at, race};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::sim;
use wasm_bindgen::JsCast;

type Fut = Pin<Box<dyn Future<Output = ()>>>;

/// Geometry along the scroll axis.
struct Geo {
    root: u32,
    front: u32,
    back: u32,
    head: Cell<u32>,
    foot: Cell<u32>,
    size: Cell<f64>,
    at: Cell<f64>,
    scroll: Cell<f64>,
    /// Size of an item: from `item` to `item * (1 + vary)`.
    item: f64,
    vary: f64,
    vary_by: u64,
    head_px: Cell<f64>,
    foot_px: f64,
}
impl Geo {
    /// Extent of a node of the list (without its offset).
    fn extent(&self, id: u32) -> f64 {
        if id == self.front || id == self.back {
            return sim::with(|w| {
                let o = &w.objs[id as usize];
                let st = o.props.get("__style").and_then(|s| s.obj_id());
                let names: &[&str] = &["height", "block-size", "min-height"];
                let mut px = 0.0;
                if let Some(st) = st {
                    for n in names {
                        if let Some(v) = w.objs[st as usize].props.get(*n) {
                            let s = v.as_string().unwrap_or_default();
                            px = s.trim_end_matches("px").parse::<f64>().unwrap_or(0.0).max(0.0);
                        }
                    }
                }
                px
            });
        }
        if id == self.head.get() {
            return self.head_px.get();
        }
        if id == self.foot.get() {
            return self.foot_px;
        }
        match sim::with(|w| w.node(id).map(|n| n.ty)) {
            Some(sim::NodeType::Element) => {
                if self.vary == 0.0 {
                    self.item
                } else {
                    let i: u64 = sim::with(|w| w.text_content(id)).parse().unwrap_or(0);
                    let part = match self.vary_by {
                        // each item its own size, or whole stretches of alike ones
                        0 => i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56,
                        n => (i / n).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56,
                    };
                    self.item * (1.0 + self.vary * (part as f64 / 255.0))
                }
            }
            _ => 0.0,
        }
    }
    fn flow(&self) -> Vec<(u32, f64, f64)> {
        let mut x = 0.0;
        sim::with(|w| w.children_of(self.root))
            .into_iter()
            .map(|c| {
                let e = self.extent(c);
                x += e;
                (c, x - e, x)
            })
            .collect()
    }
    fn total(&self) -> f64 {
        self.flow().last().map(|f| f.2).unwrap_or(0.0)
    }
    fn max_scroll(&self) -> f64 {
        (self.total() - self.size.get()).max(0.0)
    }
    fn rect(&self, id: u32) -> sim::Rect {
        let mk = |a: f64, len: f64| {
            sim::Rect { left: 3.0, top: a, width: 80.0, height: len }
        };
        if !sim::with(|w| w.connected(id)) {
            return sim::Rect::default();
        }
        if id == self.root {
            return mk(self.at.get(), self.size.get());
        }
        match self.flow().iter().find(|f| f.0 == id) {
            Some((_, a, b)) => mk(self.at.get() + a - self.scroll.get(), b - a),
            None => sim::Rect::default(),
        }
    }
}

#[derive(Default)]
struct Env {
    live: RefCell<BTreeMap<usize, usize>>,
    born: Cell<usize>,
    visible: Cell<bool>,
    wakers: RefCell<Vec<Waker>>,
    scroll_due: Cell<bool>,
}
struct Item(Rc<Env>, usize, Fut);
impl Future for Item {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        step();
        self.2.as_mut().poll(cx)
    }
}
impl Drop for Item {
    fn drop(&mut self) {
        let mut l = self.0.live.borrow_mut();
        let n = l.get_mut(&self.1).unwrap();
        *n -= 1;
        if *n == 0 {
            l.remove(&self.1);
        }
    }
}
type List = VirtualizedList<'static, Item, Box<dyn FnMut(usize) -> Item>>;

/// The browser after layout: the scroll offset is clamped to the content.
fn clamp(g: &Geo, env: &Env) {
    let m = g.max_scroll();
    if g.scroll.get() > m {
        log(format!("scroll clamped to {m}"));
        g.scroll.set(m);
        env.scroll_due.set(true);
    }
}
fn scroll_event(g: &Geo, env: &Env) {
    env.scroll_due.set(false);
    let ev = sim::new_event("Event", "scroll", false, false);
    sim::user_dispatch(g.root, &ev);
}
/// One browser step; true if there was something to do.
fn browser_step(g: &Geo, env: &Env, k: usize) -> bool {
    clamp(g, env);
    let timers = sim::pending_timers();
    let ints = sim::pending_intersections();
    let mut opts: Vec<usize> = vec![];
    if !timers.is_empty() {
        opts.push(0);
    }
    if env.scroll_due.get() {
        opts.push(1);
    }
    if !ints.is_empty() {
        opts.push(2);
    }
    if opts.is_empty() {
        return false;
    }
    match opts[k % opts.len()] {
        0 => {
            sim::fire_timer(timers[0].id);
        }
        1 => scroll_event(g, env),
        _ => {
            sim::deliver_intersection(ints[k % ints.len()]);
        }
    }
    true
}
fn rest(g: &Geo, env: &Env) {
    for _ in 0..400 {
        if !browser_step(g, env, choose(2)) {
            return;
        }
    }
    violate("livelock", "the list never comes to rest");
}

struct Model {
    num: Cell<usize>,
}
fn check_rest(g: &Geo, env: &Env, m: &Model) {
    if !env.visible.get() {
        let n = sim::with(|w| w.render(g.root));
        check!(!n.contains('"'), "leftover-nodes", "the list is not rendered but shows {n}");
        check!(sim::live_observers() == 0, "listener-leak", "the list is not rendered but still observes intersections");
        check!(sim::with(|w| w.listener_count()) == 0, "listener-leak", "the list is not rendered but still listens to scrolling");
        return;
    }
    let flow = g.flow();
    let pos = |id: u32| flow.iter().position(|f| f.0 == id);
    let (Some(pf), Some(pb)) = (pos(g.front), pos(g.back)) else { violate("spacers-missing", format!("spacers are not shown: {}", sim::with(|w| w.render(g.root)))) };
    check!(pf < pb, "spacer-order", "front spacer after back spacer");
    let mut idx: Vec<usize> = vec![];
    for (i, f) in flow.iter().enumerate() {
        let el = sim::with(|w| matches!(w.node(f.0).map(|n| n.ty), Some(sim::NodeType::Element)));
        if !el || f.0 == g.front || f.0 == g.back || f.0 == g.head.get() || f.0 == g.foot.get() {
            continue;
        }
        check!(i > pf && i < pb, "item-outside", "an item is rendered outside of the spacers");
        let t = sim::with(|w| w.text_content(f.0));
        idx.push(t.parse().expect("SIM-item text"));
    }
    let num = m.num.get();
    for p in idx.windows(2) {
        check!(p[1] == p[0] + 1, "not-contiguous", "shown items {idx:?} are not a contiguous run");
    }
    if let Some(l) = idx.last() {
        check!(*l < num, "beyond-end", "items {:?}..={l} are shown, the list has {num} items", idx[0]);
    }
    let live: Vec<(usize, usize)> = env.live.borrow().iter().map(|(a, b)| (*a, *b)).collect();
    let want: Vec<(usize, usize)> = idx.iter().map(|i| (*i, 1)).collect();
    check!(live == want, "live-items", "live item futures {live:?}, shown items {idx:?}");
    // The part of the list that is inside the viewport must be items.
    let (v0, v1) = (g.scroll.get(), g.scroll.get() + g.size.get());
    let (f1, b0) = (flow[pf].2, flow[pb].1);
    let (f0, b1) = (flow[pf].1, flow[pb].2);
    let state = || format!("viewport {v0}..{v1}, front spacer {f0}..{f1}, back spacer {b0}..{b1}, items {:?}..={:?} of {num}, item size {}", idx.first(), idx.last(), g.item);
    let eps = 0.5;
    if let (Some(a), Some(z)) = (idx.first(), idx.last()) {
        probe("rest_with_items");
        if *a > 0 {
            check!(f1 <= v0 + eps || f0 >= v1 - eps, "blank-before", "the viewport shows blank space before the items: {}", state());
        }
        if *z + 1 < num {
            check!(b0 >= v1 - eps || b1 <= v0 + eps, "blank-after", "the viewport shows blank space after the items: {}", state());
        }
        if *a == 0 {
            check!(f1 - f0 < eps, "space-before-first", "blank space before the first item: {}", state());
        }
        if *z + 1 == num && (b0 < v1) {
            check!(b1 - b0 < eps, "space-after-last", "blank space after the last item is on screen: {}", state());
        }
        if *a > 0 {
            probe("rest_scrolled");
        }
    } else if num > 0 {
        // Nothing rendered: the list must be off screen.
        check!(b1 < v0 || f0 > v1, "blank", "the list is on screen and shows no item: {}", state());
    }
}

pub fn virt() {
    let doc = web_sys::window().unwrap().document().unwrap();
    let main = doc.create_element("main").unwrap();
    doc.body().unwrap().append_child(&main).unwrap();
    let root: Div = Div::new();
    let root: &'static Div = Box::leak(Box::new(root));
    let (sf, sb) = (Div::new(), Div::new());
    let env: Rc<Env> = Rc::default();
    let items = [20.0, 10.0, 30.0, 5.0, 50.0][choose(5)];
    let g = Rc::new(Geo {
        root: dom_id(&root.element),
        front: dom_id(&sf.element),
        back: dom_id(&sb.element),
        head: Cell::new(u32::MAX),
        foot: Cell::new(u32::MAX),
        size: Cell::new([100.0, 60.0, 200.0][choose(3)]),
        at: Cell::new([0.0, 40.0][choose(2)]),
        scroll: Cell::new(0.0),
        item: items,
        vary: if chance(1, 4) { [0.1, 0.25, 0.5][choose(3)] } else { 0.0 },
        vary_by: [0, 3, 40, 1000][choose(4)],
        head_px: Cell::new([0.0, 0.0, 0.0, 80.0, 700.0][choose(5)]),
        foot_px: [0.0, 0.0, 0.0, 80.0, 700.0][choose(5)],
    });
    let g2 = g.clone();
    sim::with(|w| w.layout = Some(Rc::new(move |id| g2.rect(id))));
    let e2 = env.clone();
    let renderer: Box<dyn FnMut(usize) -> Item> = Box::new(move |i| {
        step();
        e2.born.set(e2.born.get() + 1);
        *e2.live.borrow_mut().entry(i).or_insert(0) += 1;
        log(format!("item {i}"));
        let s = i.to_string();
        Item(e2.clone(), i, Box::pin(async move { Div::new().render(s.as_str().render()).await }))
    });
    let list: List = VirtualizedList::new(&root.element, (*sf.element).clone().unchecked_into(), (*sb.element).clone().unchecked_into(), renderer);
    let list: Rc<List> = Rc::new(list);
    let m = Model { num: Cell::new(0) };
    let set_num = |list: &List, n: usize| {
        log(format!("num={n}"));
        m.num.set(n);
        list.set_num_items(n);
    };
    let sizes = |old: usize| -> usize {
        match choose(8) {
            0 => 0,
            1 => 1 + choose(4),
            2 => 5 + choose(20),
            3 => 100 + choose(100),
            4 if chance(1, 3) => {
                probe("very many items");
                [65_537, 100_000, 1_048_577, 2_000_000, 10_000_000][choose(5)] + choose(1000)
            }
            4 => 1000 + choose(3000),
            5 => old + 1,
            6 => old.saturating_sub(1),
            _ => old / 2,
        }
    };
    if chance(2, 3) {
        set_num(&list, sizes(50));
    }
    env.visible.set(!chance(1, 5));
    let (l2, e2, g2) = (list.clone(), env.clone(), g.clone());
    let app = async move {
        let content = async {
            loop {
                let vis = e2.visible.get();
                let changed = poll_fn(|cx| {
                    let mut w = e2.wakers.borrow_mut();
                    w.clear();
                    w.push(cx.waker().clone());
                    if e2.visible.get() != vis {
                        Poll::Ready(())
                    } else {
                        Poll::Pending
                    }
                });
                if vis {
                    race((l2.render(), changed)).await;
                } else {
                    changed.await;
                }
            }
        };
        let (h, f) = (Div::new(), Div::new());
        g2.head.set(dom_id(&h.element));
        g2.foot.set(dom_id(&f.element));
        root.render(join((h.render(async {}), content, f.render(async {})))).await;
    };
    let task = mount_at(app, main.into());
    for _ in 0..3 + choose(14) {
        span(|| {
            clamp(&g, &env);
            match weighted(&[6, 4, 6, 5, 1, 1, 1, 2]) {
                0 => {
                    // user scrolls (the event comes later)
                    let mx = g.max_scroll();
                    let s = match choose(6) {
                        0 => mx,
                        1 => 0.0,
                        2 => g.scroll.get() + g.size.get() / 2.0,
                        3 => g.scroll.get() - g.size.get() / 2.0,
                        4 => (mx * choose(101) as f64 / 100.0).floor(),
                        _ => g.scroll.get() + g.item,
                    };
                    let s = s.clamp(0.0, mx);
                    if s != g.scroll.get() {
                        log(format!("scroll to {s}"));
                        g.scroll.set(s);
                        env.scroll_due.set(true);
                    }
                }
                1 => {
                    let n = sizes(m.num.get());
                    if n < m.num.get() {
                        fault("shrink");
                    }
                    set_num(&list, n);
                }
                2 => {
                    browser_step(&g, &env, choose(6));
                }
                3 => {
                    rest(&g, &env);
                    check_rest(&g, &env, &m);
                }
                4 => {
                    fault("hide_or_show");
                    env.visible.set(!env.visible.get());
                    for w in env.wakers.borrow().iter() {
                        w.wake_by_ref();
                    }
                }
                5 => {
                    fault("viewport_resized");
                    g.size.set([100.0, 60.0, 200.0][choose(3)]);
                    // a resize usually comes with a scroll event
                    env.scroll_due.set(true);
                }
                7 => {
                    // What is above the list grows or shrinks: no scroll event.
                    // Frames have been shown since the last such change, so
                    // the browser has noticed what was (not) visible then.
                    rest(&g, &env);
                    fault("content_above_resized");
                    g.head_px.set([0.0, 30.0, 80.0, 300.0, 700.0, 2500.0][choose(6)]);
                }
                _ => {
                    fault("spurious_scroll_event");
                    scroll_event(&g, &env);
                }
            }
        });
    }
    rest(&g, &env);
    check_rest(&g, &env, &m);
    if env.visible.get() {
        // Both ends can be reached.
        let mut k = 0;
        loop {
            let mx = g.max_scroll();
            if g.scroll.get() == mx && k > 0 {
                break;
            }
            g.scroll.set(mx);
            env.scroll_due.set(true);
            rest(&g, &env);
            check_rest(&g, &env, &m);
            k += 1;
            if g.vary > 0.0 && k >= 10 {
                // the estimate of the length changes with what is looked at
                break;
            }
            check!(k < 40, "end-unreachable", "scrolling to the end never arrives");
        }
        if m.num.get() > 0 && g.foot_px == 0.0 && (g.vary == 0.0 || g.scroll.get() == g.max_scroll()) {
            let l = env.live.borrow().keys().next_back().copied();
            check!(l == Some(m.num.get() - 1), "end-unreachable", "scrolled to the very end, the last item is {l:?} of {}", m.num.get());
            probe("end_reached");
        }
        g.scroll.set(0.0);
        env.scroll_due.set(true);
        rest(&g, &env);
        check_rest(&g, &env, &m);
        if m.num.get() > 0 && g.head_px.get() == 0.0 {
            check!(env.live.borrow().keys().next() == Some(&0), "start-unreachable", "scrolled to the start, the first item is not shown");
        }
    }
    drop(task);
    settle(100);
    drop(list);
    settle(100);
    check!(env.live.borrow().is_empty(), "leak", "items are alive after the list was dropped");
    check!(sim::with(|w| w.listener_count()) == 0, "listener-leak", "scroll listeners left");
    check!(sim::live_observers() == 0, "listener-leak", "the list was dropped but still observes intersections");
    env.wakers.borrow_mut().clear();
    sim::with(|w| w.layout = None);
}
