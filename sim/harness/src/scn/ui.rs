//! Whole-application scenarios: random component trees mounted through the
//! public API into the simulated browser, mutated by user events, timers and
//! component code, and compared with a mirror of the live futures.
//!
//! The mirror: every rendered future is wrapped in a probe `P` that knows its
//! structural position and records first poll, completion and drop. What must
//! be on screen is exactly what the live probes describe.
use super::comb::{combine, pick_comb, BoxRes, Form, Kind, Res, Val};
use crate::ctx::*;
use async_ui_web::components::DynamicSlot;
use async_ui_web::html::{Br, Button, CustomElement, Div, Hr, Input, Li, Link, Paragraph, Span, Ul};
use async_ui_web::lists::DynamicList;
use async_ui_web::prelude_traits::*;
use async_ui_web::{join, mount_at, race, NoChild};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::sim;
use wasm_bindgen::JsValue;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Unpolled,
    Live,
    Done,
    Dropped,
}
#[derive(Clone, Debug)]
pub enum K {
    Text(String),
    Elem(String),
    Void(String),
    Group(Kind, Form),
    /// Runs its children one after another; current index.
    Seq(usize),
    Gate(usize),
    Actor(usize),
    Slot(usize),
    ListRender(usize),
    /// Shows its child; drops it when it completes.
    PendAfter,
    Wrap,
}
pub struct N {
    pub parent: Option<usize>,
    pub k: K,
    pub st: St,
    pub was_done: bool,
    pub kids: Vec<usize>,
    pub dom: Option<u32>,
}
pub struct Gate {
    pub open: Cell<bool>,
    pub wakers: RefCell<Vec<Waker>>,
    pub node: usize,
}
pub struct Actor {
    pub todo: Cell<usize>,
    pub wakers: RefCell<Vec<Waker>>,
    pub node: usize,
}
pub struct SlotM {
    pub obj: Rc<DynamicSlot<BoxRes>>,
    pub renders: Vec<usize>,
    /// Content the model says should be shown once everything has settled.
    pub want: Option<usize>,
    pub all: Vec<usize>,
}
pub type List = DynamicList<'static, u32, BoxRes>;
pub struct ListM {
    pub obj: Rc<List>,
    pub items: Vec<(u32, usize)>,
    pub all: Vec<usize>,
    pub renders: Vec<usize>,
    pub depth: usize,
    /// Shown by `tabs`, so nobody else may.
    pub reserved: bool,
}
pub struct Mount {
    pub dom: u32,
    pub root: usize,
    pub task: Option<async_executor::Task<Res>>,
    pub foreign: String,
}
#[derive(Default)]
pub struct Env {
    pub nodes: RefCell<Vec<N>>,
    pub gates: RefCell<Vec<Rc<Gate>>>,
    pub actors: RefCell<Vec<Rc<Actor>>>,
    pub slots: RefCell<Vec<SlotM>>,
    pub lists: RefCell<Vec<ListM>>,
    pub mounts: RefCell<Vec<Mount>>,
    pub buttons: RefCell<Vec<(u32, usize)>>,
    pub next_key: Cell<u32>,
    pub budget: Cell<usize>,
    pub cfg: Cell<Cfg>,
    pub in_exec: Cell<bool>,
    pub tearing: Cell<bool>,
}
#[derive(Clone, Copy, Default)]
pub struct Cfg {
    pub steps: usize,
    pub nodes: usize,
    pub w_slot: usize,
    pub w_list: usize,
    pub w_seq: usize,
    pub w_gate: usize,
    pub w_unmount: usize,
    pub w_static: usize,
    pub w_wide: usize,
    pub crowds: bool,
    pub w_tabs: usize,
    pub reattach: bool,
    pub settle: usize,
}
pub type E = Rc<Env>;

pub fn unit() -> Val {
    Val::List(vec![])
}

/// The probe around one rendered future.
#[pin_project::pin_project(PinnedDrop)]
pub struct P<F> {
    id: usize,
    env: E,
    #[pin]
    inner: F,
}
impl<F: Future> P<F> {
    fn new(env: &E, id: usize, inner: F) -> Self {
        P { id, env: env.clone(), inner }
    }
}
impl<F: Future<Output = T>, T: IntoRes> Future for P<F> {
    type Output = Res;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        step();
        let this = self.project();
        let id = *this.id;
        {
            let mut ns = this.env.nodes.borrow_mut();
            match ns[id].st {
                St::Unpolled => {
                    log(format!("+{id}"));
                    ns[id].st = St::Live;
                }
                St::Live => {}
                St::Done => {
                    drop(ns);
                    violate("poll-after-complete", format!("component {id} polled after it completed"))
                }
                St::Dropped => {
                    drop(ns);
                    violate("poll-after-drop", format!("component {id} polled after it was dropped"))
                }
            }
        }
        match this.inner.poll(cx) {
            Poll::Ready(v) => {
                log(format!("={id}"));
                let mut ns = this.env.nodes.borrow_mut();
                ns[id].st = St::Done;
                ns[id].was_done = true;
                Poll::Ready(v.into_res())
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
#[pin_project::pinned_drop]
impl<F> PinnedDrop for P<F> {
    fn drop(self: Pin<&mut Self>) {
        let mut ns = self.env.nodes.borrow_mut();
        if ns[self.id].st == St::Dropped {
            drop(ns);
            violate("double-drop", format!("component {} dropped twice", self.id));
        }
        log(format!("-{}", self.id));
        ns[self.id].st = St::Dropped;
        if let K::Slot(si) = ns[self.id].k {
            // What was on screen in the slot goes with it; what was set but
            // not shown yet stays for the next rendering.
            if let Ok(mut ss) = self.env.slots.try_borrow_mut() {
                if let Some(s) = ss.get_mut(si) {
                    if s.want.map_or(false, |w| ns[w].st != St::Unpolled) {
                        s.want = None;
                    }
                }
            }
        }
    }
}
pub trait IntoRes {
    fn into_res(self) -> Res;
}
impl IntoRes for () {
    fn into_res(self) -> Res {
        Ok(unit())
    }
}
impl IntoRes for Res {
    fn into_res(self) -> Res {
        self
    }
}
impl<A, B> IntoRes for (A, B) {
    fn into_res(self) -> Res {
        Ok(unit())
    }
}
impl<A, B, C> IntoRes for (A, B, C) {
    fn into_res(self) -> Res {
        Ok(unit())
    }
}
impl<A, B, C, D> IntoRes for (A, B, C, D) {
    fn into_res(self) -> Res {
        Ok(unit())
    }
}
impl<A, const X: usize> IntoRes for [A; X] {
    fn into_res(self) -> Res {
        Ok(unit())
    }
}

pub struct GateFut {
    g: Rc<Gate>,
}
impl Future for GateFut {
    type Output = Res;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        keep_waker(&self.g.wakers, cx);
        if self.g.open.get() {
            Poll::Ready(if self.g.node % 3 == 1 { Err(unit()) } else { Ok(unit()) })
        } else {
            Poll::Pending
        }
    }
}
pub fn keep_waker(ws: &RefCell<Vec<Waker>>, cx: &mut Context<'_>) {
    let mut w = ws.borrow_mut();
    if w.len() >= 2 {
        w.remove(0);
    }
    w.push(cx.waker().clone());
}
/// Wake through the newest waker, or (fault) also through a stale one.
pub fn wake_all(ws: &RefCell<Vec<Waker>>) {
    let v: Vec<Waker> = ws.borrow().clone();
    if let Some(w) = v.last() {
        w.wake_by_ref();
    }
    if v.len() > 1 && chance(1, 4) {
        fault("stale_waker_used");
        v[0].wake_by_ref();
    }
}
struct ActorFut {
    a: Rc<Actor>,
    env: E,
}
impl Future for ActorFut {
    type Output = Res;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        keep_waker(&self.a.wakers, cx);
        while self.a.todo.get() > 0 {
            self.a.todo.set(self.a.todo.get() - 1);
            fault("op_inside_poll");
            span(|| random_op(&self.env, true));
        }
        Poll::Pending
    }
}

pub fn new_node(env: &E, parent: Option<usize>, k: K) -> usize {
    let mut ns = env.nodes.borrow_mut();
    let id = ns.len();
    ns.push(N { parent, k, st: St::Unpolled, was_done: false, kids: vec![], dom: None });
    if let Some(p) = parent {
        ns[p].kids.push(id);
    }
    env.budget.set(env.budget.get().saturating_sub(1));
    id
}
fn set_kind(env: &E, id: usize, k: K) {
    env.nodes.borrow_mut()[id].k = k;
}
fn text(env: &E, parent: Option<usize>) -> BoxRes {
    let id = new_node(env, parent, K::Wrap);
    let s = format!("t{id}");
    set_kind(env, id, K::Text(s.clone()));
    Box::pin(P::new(env, id, s.render()))
}
const TAGS: [&str; 6] = ["div", "span", "p", "ul", "li", "x-a"];
fn elem<F: Future<Output = T> + 'static, T: IntoRes + 'static>(env: &E, parent: Option<usize>, mk: impl FnOnce(usize) -> F) -> BoxRes {
    let t = choose(TAGS.len());
    let id = new_node(env, parent, K::Elem(TAGS[t].to_string()));
    let kid = mk(id);
    match t {
        0 => Box::pin(P::new(env, id, Div::new().render(kid))),
        1 => Box::pin(P::new(env, id, Span::new().render(kid))),
        2 => Box::pin(P::new(env, id, Paragraph::new().render(kid))),
        3 => Box::pin(P::new(env, id, Ul::new().render(kid))),
        4 => Box::pin(P::new(env, id, Li::new().render(kid))),
        _ => Box::pin(P::new(env, id, CustomElement::new("x-a".into()).render(kid))),
    }
}
fn void(env: &E, parent: Option<usize>) -> BoxRes {
    let t = choose(4);
    let id = new_node(env, parent, K::Void(["input", "br", "link", "hr"][t].to_string()));
    match t {
        0 => Box::pin(P::new(env, id, Input::new().render())),
        1 => Box::pin(P::new(env, id, Br::new().render())),
        2 => Box::pin(P::new(env, id, Link::new().render())),
        _ => Box::pin(P::new(env, id, Hr::new().render())),
    }
}
/// Performs an operation while it is being dropped.
struct DropOp {
    env: E,
    id: usize,
}
impl Future for DropOp {
    type Output = Res;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Res> {
        Poll::Pending
    }
}
impl Drop for DropOp {
    fn drop(&mut self) {
        if std::thread::panicking() || self.env.slots.borrow().is_empty() && self.env.lists.borrow().is_empty() {
            return;
        }
        let env = self.env.clone();
        if env.tearing.get() {
            return;
        }
        fault("op_inside_drop");
        log(format!("dropop{}", self.id));
        span(|| random_op(&env, true));
    }
}
fn drop_op(env: &E, parent: Option<usize>) -> BoxRes {
    let id = new_node(env, parent, K::Gate(usize::MAX));
    Box::pin(P::new(env, id, DropOp { env: env.clone(), id }))
}
fn gate(env: &E, parent: Option<usize>) -> (BoxRes, Rc<Gate>) {
    let gi = env.gates.borrow().len();
    let id = new_node(env, parent, K::Gate(gi));
    let g = Rc::new(Gate { open: Cell::new(false), wakers: RefCell::new(vec![]), node: id });
    env.gates.borrow_mut().push(g.clone());
    (Box::pin(P::new(env, id, GateFut { g: g.clone() })), g)
}
fn actor(env: &E, parent: Option<usize>) -> BoxRes {
    let ai = env.actors.borrow().len();
    let id = new_node(env, parent, K::Actor(ai));
    let a = Rc::new(Actor { todo: Cell::new(choose(2)), wakers: RefCell::new(vec![]), node: id });
    env.actors.borrow_mut().push(a.clone());
    Box::pin(P::new(env, id, ActorFut { a, env: env.clone() }))
}
/// A button that performs operations from inside its click handler.
fn clicker(env: &E, parent: Option<usize>) -> BoxRes {
    let id = new_node(env, parent, K::Elem("button".into()));
    let btn = Button::new();
    let dom = AsRef::<JsValue>::as_ref(&btn.element).obj_id().unwrap();
    env.buttons.borrow_mut().push((dom, id));
    let e2 = env.clone();
    // text inside the button
    let tid = new_node(env, Some(id), K::Wrap);
    let s = format!("t{tid}");
    set_kind(env, tid, K::Text(s.clone()));
    let t = P::new(env, tid, s.as_str().render());
    let fut = async move {
        let click = async {
            loop {
                let mut evs = btn.until_click();
                (&mut evs).await;
                fault("op_inside_event");
                span(|| random_op(&e2, true));
            }
        };
        race((
            async {
                let _ = btn.render(t).await;
            },
            click,
        ))
        .await
    };
    Box::pin(P::new(env, id, fut))
}
fn seq(env: &E, parent: Option<usize>, depth: usize) -> BoxRes {
    let id = new_node(env, parent, K::Seq(0));
    let n = 2 + choose(2);
    let mut stages: Vec<BoxRes> = vec![];
    let style = choose(2);
    for _ in 0..n {
        let w = new_node(env, Some(id), K::Group(Kind::Race, Form::Tuple));
        let body = gen(env, Some(w), depth);
        let (g, _) = gate(env, Some(w));
        stages.push(if style == 0 {
            Box::pin(P::new(env, w, race((body, g))))
        } else {
            let f = async move {
                async_ui_web::select! {
                    a = body => a,
                    b = g => b,
                }
            };
            Box::pin(P::new(env, w, f))
        });
    }
    let e2 = env.clone();
    let fut = async move {
        for (i, st) in stages.into_iter().enumerate() {
            e2.nodes.borrow_mut()[id].k = K::Seq(i);
            log(format!("stage{id}.{i}"));
            probe("seq_stage");
            let _ = st.await;
        }
        e2.nodes.borrow_mut()[id].k = K::Seq(n);
    };
    Box::pin(P::new(env, id, fut))
}
fn new_slot(env: &E) -> usize {
    let si = env.slots.borrow().len();
    env.slots.borrow_mut().push(SlotM { obj: Rc::new(if chance(1, 8) { Default::default() } else { DynamicSlot::new() }), renders: vec![], want: None, all: vec![] });
    si
}
fn slot_render(env: &E, parent: Option<usize>, si: usize) -> BoxRes {
    let id = new_node(env, parent, K::Slot(si));
    env.slots.borrow_mut()[si].renders.push(id);
    let obj = env.slots.borrow()[si].obj.clone();
    Box::pin(P::new(env, id, async move { obj.render().await }))
}
fn slot(env: &E, parent: Option<usize>, depth: usize) -> BoxRes {
    let si = new_slot(env);
    let fut = slot_render(env, parent, si);
    if chance(1, 2) {
        slot_set(env, si, depth);
    }
    fut
}
/// Shows the same list or slot in one place after another.
fn tabs(env: &E, parent: Option<usize>, depth: usize) -> BoxRes {
    let id = new_node(env, parent, K::Seq(0));
    let c = env.cfg.get();
    let li = if c.w_slot == 0 || c.w_list > 0 && chance(1, 2) {
        let li = new_list(env, depth.min(2));
        env.lists.borrow_mut()[li].reserved = true;
        Ok(li)
    } else {
        let si = new_slot(env);
        if chance(1, 2) {
            slot_set(env, si, 1);
        }
        Err(si)
    };
    let n = 2 + choose(3);
    let mut stages: Vec<BoxRes> = vec![];
    for _ in 0..n {
        let w = new_node(env, Some(id), K::Group(Kind::Race, Form::Tuple));
        let shown = |env: &E, p: usize| match li {
            Ok(li) => list_render_of(env, Some(p), li),
            Err(si) => slot_render(env, Some(p), si),
        };
        let body = match choose(4) {
            0 => shown(env, w),
            1 => elem(env, Some(w), |i| shown(env, i)),
            // nowhere for a while
            2 => text(env, Some(w)),
            _ => {
                let g = new_node(env, Some(w), K::Group(Kind::Join, Form::Vec));
                let mut kids = vec![];
                let at = choose(3);
                for i in 0..3 {
                    kids.push(if i == at {
                        shown(env, g)
                    } else if chance(1, 2) {
                        late(env, Some(g))
                    } else {
                        text(env, Some(g))
                    });
                }
                Box::pin(P::new(env, g, combine(Kind::Join, Form::Vec, kids)))
            }
        };
        let (g, _) = gate(env, Some(w));
        stages.push(Box::pin(P::new(env, w, race((body, g)))));
    }
    let e2 = env.clone();
    Box::pin(P::new(env, id, async move {
        for (i, st) in stages.into_iter().enumerate() {
            e2.nodes.borrow_mut()[id].k = K::Seq(i);
            if i > 0 {
                fault(if li.is_ok() { "list_rendered_elsewhere" } else { "slot_rendered_elsewhere" });
            }
            let _ = st.await;
        }
        e2.nodes.borrow_mut()[id].k = K::Seq(n);
    }))
}
fn slot_set(env: &E, si: usize, depth: usize) {
    let obj = env.slots.borrow()[si].obj.clone();
    let first = env.nodes.borrow().len();
    // known as content from the start, for the cycle check
    env.slots.borrow_mut()[si].all.push(first);
    let fut = gen(env, None, depth);
    log(format!("slot{si}={first}"));
    {
        env.slots.borrow_mut()[si].want = Some(first);
    }
    obj.set_future(fut);
}
fn new_list(env: &E, depth: usize) -> usize {
    let li = env.lists.borrow().len();
    env.lists.borrow_mut().push(ListM { obj: Rc::new(if chance(1, 8) { Default::default() } else { DynamicList::new() }), items: vec![], all: vec![], renders: vec![], depth, reserved: false });
    for _ in 0..choose(4) {
        list_insert(env, li, None, None);
    }
    li
}
/// Somewhere to show a list: a fresh one, or (fault) one that was shown
/// before and is currently detached.
fn list_render(env: &E, parent: Option<usize>, depth: usize) -> BoxRes {
    let id = new_node(env, parent, K::Wrap);
    let free: Vec<usize> = {
        let ls = env.lists.borrow();
        let ns = env.nodes.borrow();
        (0..ls.len())
            .filter(|l| !ls[*l].reserved && ls[*l].depth >= depth && !ls[*l].renders.is_empty() && ls[*l].renders.iter().all(|r| ns[*r].st == St::Dropped))
            .filter(|l| !would_cycle(env, &ns, &ls, id, *l))
            .collect()
    };
    let li = if env.cfg.get().reattach && !free.is_empty() && chance(1, 2) {
        fault("list_rendered_elsewhere");
        free[choose(free.len())]
    } else {
        new_list(env, depth)
    };
    set_kind(env, id, K::ListRender(li));
    show_list(env, id, li)
}
fn list_render_of(env: &E, parent: Option<usize>, li: usize) -> BoxRes {
    let id = new_node(env, parent, K::ListRender(li));
    show_list(env, id, li)
}
fn show_list(env: &E, id: usize, li: usize) -> BoxRes {
    env.lists.borrow_mut()[li].renders.push(id);
    let obj = env.lists.borrow()[li].obj.clone();
    Box::pin(P::new(env, id, async move { obj.render().await }))
}
/// Is `id` (transitively) inside list `l`?
fn would_cycle(env: &E, ns: &[N], ls: &[ListM], id: usize, l: usize) -> bool {
    let mut todo: Vec<usize> = vec![id];
    let mut seen = vec![];
    while let Some(p) = todo.pop() {
        if seen.contains(&p) {
            continue;
        }
        seen.push(p);
        if ls[l].all.contains(&p) {
            return true;
        }
        if let Some(q) = ns[p].parent {
            todo.push(q);
        }
        for m in ls {
            if m.all.contains(&p) {
                todo.extend(m.renders.iter().copied());
            }
        }
        for m in env.slots.borrow().iter() {
            if m.all.contains(&p) {
                todo.extend(m.renders.iter().copied());
            }
        }
    }
    false
}
fn list_insert(env: &E, li: usize, key: Option<u32>, before: Option<u32>) {
    let depth = env.lists.borrow()[li].depth;
    let key = key.unwrap_or_else(|| {
        env.next_key.set(env.next_key.get() + 1);
        env.next_key.get()
    });
    let first = env.nodes.borrow().len();
    env.lists.borrow_mut()[li].all.push(first);
    let fut = gen(env, None, depth.saturating_sub(1));
    let obj = {
        let mut ls = env.lists.borrow_mut();
        let l = &mut ls[li];
        // model: the new item goes before `before` (or last); an old item
        // under the same key disappears.
        let mut items: Vec<(u32, usize)> = l.items.clone();
        let pos = before.and_then(|b| items.iter().position(|(k, _)| *k == b));
        match pos {
            Some(p) => items.insert(p, (key, first)),
            None => items.push((key, first)),
        }
        items.retain(|(k, i)| *k != key || *i == first);
        l.items = items;
        l.obj.clone()
    };
    let had = obj.contains_key(&key);
    log(format!("ins{li}.{key}<{before:?}={first}"));
    let replaced = obj.insert(key, fut, before.as_ref());
    check!(replaced == had, "list-insert-result", "insert({key}) returned {replaced} but contains_key said {had}");
}

/// Statically typed (unboxed) component shapes.
pub trait Sink {
    type R;
    fn put<F: Future<Output = Res> + 'static>(self, f: F) -> Self::R;
}
pub struct Boxed;
impl Sink for Boxed {
    type R = BoxRes;
    fn put<F: Future<Output = Res> + 'static>(self, f: F) -> BoxRes {
        Box::pin(f)
    }
}
struct MountIn(web_sys::Node);
impl Sink for MountIn {
    type R = async_executor::Task<Res>;
    fn put<F: Future<Output = Res> + 'static>(self, f: F) -> Self::R {
        mount_at(f, self.0)
    }
}
fn stat<S: Sink>(env: &E, parent: Option<usize>, sink: S) -> S::R {
    fn t(env: &E, p: usize) -> P<async_ui_web_core::ContainerNodeFuture<std::future::Pending<()>>> {
        let id = new_node(env, Some(p), K::Wrap);
        let s = format!("t{id}");
        set_kind(env, id, K::Text(s.clone()));
        P::new(env, id, s.as_str().render())
    }
    fn g(env: &E, p: usize) -> P<GateFut> {
        let gi = env.gates.borrow().len();
        let id = new_node(env, Some(p), K::Gate(gi));
        let g = Rc::new(Gate { open: Cell::new(false), wakers: RefCell::new(vec![]), node: id });
        env.gates.borrow_mut().push(g.clone());
        P::new(env, id, GateFut { g })
    }
    fn d<F: Future<Output = T>, T: IntoRes>(env: &E, p: Option<usize>, f: impl FnOnce(usize) -> F) -> P<async_ui_web_core::ContainerNodeFuture<F>> {
        let id = new_node(env, p, K::Elem("div".into()));
        let k = f(id);
        P::new(env, id, Div::new().render(k))
    }
    probe("static_shape");
    match choose(10) {
        0 => sink.put(d(env, parent, |i| {
            let gi = new_node(env, Some(i), K::Group(Kind::Join, Form::Tuple));
            P::new(env, gi, join((t(env, gi), d(env, Some(gi), |j| t(env, j)), t(env, gi))))
        })),
        1 => sink.put(d(env, parent, |i| {
            d(env, Some(i), |j| {
                let gi = new_node(env, Some(j), K::Group(Kind::Race, Form::Tuple));
                P::new(env, gi, race((d(env, Some(gi), |k| t(env, k)), g(env, gi), d(env, Some(gi), |k| t(env, k)))))
            })
        })),
        2 => {
            // PendAfter around a gate next to others, unboxed
            let gi = new_node(env, parent, K::Group(Kind::Join, Form::Tuple));
            let a = d(env, Some(gi), |i| {
                let w = new_node(env, Some(i), K::PendAfter);
                P::new(env, w, d(env, Some(w), |k| g(env, k)).pend_after::<Res>())
            });
            let b = t(env, gi);
            sink.put(P::new(env, gi, join((a, b))))
        }
        3 => {
            // f.meanwhile(g)
            let gi = new_node(env, parent, K::Group(Kind::Race, Form::Tuple));
            let f = g(env, gi);
            let w = new_node(env, Some(gi), K::PendAfter);
            let eff = d(env, Some(w), |k| g(env, k));
            // the effect's own probe stands for `PendAfter(effect)`
            set_live_with(env, w, gi);
            sink.put(P::new(env, gi, f.meanwhile(eff)))
        }
        4 => {
            let gi = new_node(env, parent, K::Group(Kind::Join, Form::Array));
            let a = [d(env, Some(gi), |i| t(env, i)), d(env, Some(gi), |i| t(env, i)), d(env, Some(gi), |i| t(env, i))];
            sink.put(P::new(env, gi, join(a)))
        }
        5 => {
            let gi = new_node(env, parent, K::Group(Kind::Join, Form::Vec));
            let a: Vec<_> = (0..1 + choose(4)).map(|_| d(env, Some(gi), |i| d(env, Some(i), |j| t(env, j)))).collect();
            sink.put(P::new(env, gi, async move {
                join(a).await;
            }))
        }
        6 => {
            let gi = new_node(env, parent, K::Group(Kind::Join, Form::Tuple));
            let a = (t(env, gi), d(env, Some(gi), |i| t(env, i)), t(env, gi), t(env, gi));
            sink.put(P::new(env, gi, join(a)))
        }
        7 => {
            let gi = new_node(env, parent, K::Group(Kind::Race, Form::Tuple));
            let gj = new_node(env, Some(gi), K::Group(Kind::Join, Form::Tuple));
            let inner = P::new(env, gj, join((d(env, Some(gj), |i| t(env, i)), t(env, gj))));
            let inner2 = d(env, Some(gi), |i| g(env, i));
            let x = g(env, gi);
            let y = d(env, Some(gi), |i| d(env, Some(i), |j| g(env, j)));
            sink.put(P::new(env, gi, race((
                async move {
                    inner.await
                },
                async move {
                    inner2.await
                },
                x,
                async move {
                    y.await
                },
            ))))
        }
        8 => {
            let gi = new_node(env, parent, K::Group(Kind::Join, Form::Array));
            let a = [t(env, gi), t(env, gi), t(env, gi)];
            sink.put(P::new(env, gi, join(a)))
        }
        _ => {
            let id = new_node(env, parent, K::Elem("div".into()));
            sink.put(P::new(env, id, Div::new().render(NoChild)))
        }
    }
}
/// Node `w` has no probe of its own: treat it as transparent.
fn set_live_with(env: &E, w: usize, _g: usize) {
    let mut ns = env.nodes.borrow_mut();
    ns[w].dom = Some(u32::MAX);
}

pub fn gen(env: &E, parent: Option<usize>, depth: usize) -> BoxRes {
    span(|| gen_inner(env, parent, depth))
}
fn gen_inner(env: &E, parent: Option<usize>, depth: usize) -> BoxRes {
    let c = env.cfg.get();
    if depth == 0 || env.budget.get() < 6 {
        return match weighted(&[6, 2, c.w_gate, 1, 2, 1]) {
            0 => text(env, parent),
            1 => void(env, parent),
            2 => gate(env, parent).0,
            3 => actor(env, parent),
            5 => drop_op(env, parent),
            _ => {
                let id = new_node(env, parent, K::Elem("div".into()));
                Box::pin(P::new(env, id, Div::new().render(NoChild)))
            }
        };
    }
    if c.crowds && parent.is_none() && chance(2, 3) {
        // A crowd that goes as a whole while its neighbours stay.
        let id = new_node(env, parent, K::Group(Kind::Join, Form::Vec));
        let a = text(env, Some(id));
        let s = new_node(env, Some(id), K::Seq(0));
        let (many, after) = (crowd(env, Some(s)), gen(env, Some(s), depth.min(2)));
        let e2 = env.clone();
        let b: BoxRes = Box::pin(P::new(env, s, async move {
            let _ = many.await;
            e2.nodes.borrow_mut()[s].k = K::Seq(1);
            after.await
        }));
        let z = gen(env, Some(id), 1);
        return Box::pin(P::new(env, id, combine(Kind::Join, Form::Vec, vec![a, b, z])));
    }
    match weighted(&[3, 6, 6, c.w_seq, c.w_slot, c.w_list, c.w_gate, 2, 1, 1, c.w_static, c.w_wide, c.w_tabs]) {
        0 => text(env, parent),
        1 => elem(env, parent, |id| gen(env, Some(id), depth - 1)),
        2 => {
            let (kind, form, n) = pick_comb(false, 4);
            let id = new_node(env, parent, K::Group(kind, form));
            let kids: Vec<BoxRes> = (0..n).map(|_| gen(env, Some(id), depth - 1)).collect();
            Box::pin(P::new(env, id, combine(kind, form, kids)))
        }
        3 => seq(env, parent, depth - 1),
        4 => slot(env, parent, depth - 1),
        5 => list_render(env, parent, depth - 1),
        6 => gate(env, parent).0,
        7 => actor(env, parent),
        8 => clicker(env, parent),
        9 => {
            let id = new_node(env, parent, K::PendAfter);
            let kid = gen(env, Some(id), depth - 1);
            Box::pin(P::new(env, id, kid.pend_after::<Res>()))
        }
        10 => stat(env, parent, Boxed),
        12 => tabs(env, parent, depth - 1),
        _ => {
            if c.crowds || chance(1, 2) {
                if c.crowds || chance(1, 5) {
                    crowd(env, parent)
                } else {
                    wide(env, parent, depth)
                }
            } else {
                let levels = 3 + choose(30);
                chain(env, parent, levels)
            }
        }
    }
}
/// A combinator with very many members, few of which do anything.
fn wide(env: &E, parent: Option<usize>, depth: usize) -> BoxRes {
    let n = match choose(12) {
        0 => 65_530 + choose(20),
        i => [33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 520][i - 1],
    };
    probe(if n > 65_536 { "members_above_65536" } else if n > 256 { "members_above_256" } else { "members_wide" });
    let edges = [0, 1, 2, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 65_534, 65_535, 65_536, 65_537, n - 2, n - 1];
    let mut at: Vec<usize> = (0..3 + choose(5))
        .map(|_| if chance(3, 4) { edges[choose(edges.len())] } else { choose(n) })
        .filter(|i| *i < n)
        .collect();
    at.sort();
    at.dedup();
    let kind = [Kind::Join, Kind::Race, Kind::TryJoin, Kind::RaceOk][choose(4)];
    let id = new_node(env, parent, K::Group(kind, Form::Vec));
    let mut kids: Vec<BoxRes> = Vec::with_capacity(n);
    for i in at {
        while kids.len() < i {
            kids.push(Box::pin(std::future::pending()));
        }
        let k = if chance(1, 2) { late(env, Some(id)) } else { gen(env, Some(id), depth - 1) };
        kids.push(k);
    }
    while kids.len() < n {
        kids.push(Box::pin(std::future::pending()));
    }
    Box::pin(P::new(env, id, combine(kind, Form::Vec, kids)))
}
/// A combinator with many members that all show something.
fn crowd(env: &E, parent: Option<usize>) -> BoxRes {
    probe("crowd");
    let kind = [Kind::Join, Kind::Race, Kind::TryJoin, Kind::RaceOk][choose(4)];
    let kind = if env.cfg.get().crowds && chance(2, 3) { Kind::Race } else { kind };
    let (form, n) = match if env.cfg.get().crowds { 4 } else { choose(4) } {
        4 => (Form::Vec, [20, 65, 130, 150, 200, 260, 300, 520][choose(8)]),
        0 => (Form::Tuple, if matches!(kind, Kind::TryJoin | Kind::RaceOk) { 9 + choose(3) } else { 9 + choose(4) }),
        1 => (Form::Array, [16, 33, 64, 65, 130][choose(5)]),
        _ => (Form::Vec, [9, 17, 20, 33, 40, 65, 70, 130, 260, 300][choose(10)]),
    };
    let id = new_node(env, parent, K::Group(kind, form));
    let (a, b) = (choose(n), choose(n));
    let kids = (0..n)
        .map(|i| {
            if i == a {
                gate(env, Some(id)).0
            } else if i == b || chance(1, 12) {
                late(env, Some(id))
            } else {
                text(env, Some(id))
            }
        })
        .collect();
    let b: BoxRes = Box::pin(P::new(env, id, combine(kind, form, kids)));
    // Later content is wanted too.
    env.budget.set(env.budget.get().max(12));
    b
}
/// Something that renders only after an event.
fn late(env: &E, parent: Option<usize>) -> BoxRes {
    let id = new_node(env, parent, K::Seq(0));
    let (g, _) = gate(env, Some(id));
    let t = text(env, Some(id));
    let e2 = env.clone();
    Box::pin(P::new(env, id, async move {
        let _ = g.await;
        e2.nodes.borrow_mut()[id].k = K::Seq(1);
        t.await
    }))
}
/// Combinators nested deeply without an element in between.
fn chain(env: &E, parent: Option<usize>, levels: usize) -> BoxRes {
    if levels == 0 {
        return late(env, parent);
    }
    probe("deep_combinator_nesting");
    let (kind, form, n) = pick_comb(false, 3);
    let id = new_node(env, parent, K::Group(kind, form));
    let deep = if n > 0 { choose(n) } else { 0 };
    let kids: Vec<BoxRes> = (0..n)
        .map(|i| {
            if i == deep {
                chain(env, Some(id), levels - 1)
            } else if chance(1, 3) {
                late(env, Some(id))
            } else {
                text(env, Some(id))
            }
        })
        .collect();
    Box::pin(P::new(env, id, combine(kind, form, kids)))
}

pub fn random_op(env: &E, inside: bool) {
    let c = env.cfg.get();
    let op = weighted(&[4, c.w_slot * 2, c.w_slot, c.w_list * 4, 2, if inside { 0 } else { 3 }, if inside { 0 } else { 3 }, c.w_unmount]);
    match op {
        0 => {
            let live: Vec<Rc<Gate>> = {
                let ns = env.nodes.borrow();
                env.gates.borrow().iter().filter(|g| matches!(ns[g.node].st, St::Live | St::Unpolled)).cloned().collect()
            };
            if live.is_empty() {
                return;
            }
            let g = &live[choose(live.len())];
            log(format!("open{}", g.node));
            g.open.set(true);
            probe("gate_opened");
            wake_all(&g.wakers);
        }
        1 => {
            let n = env.slots.borrow().len();
            if n == 0 || env.budget.get() == 0 {
                return;
            }
            let d = choose(3);
            slot_set(env, choose(n), d);
            fault("slot_content_replaced");
        }
        2 => {
            let n = env.slots.borrow().len();
            if n == 0 {
                return;
            }
            let si = choose(n);
            log(format!("slot{si}clear"));
            env.slots.borrow_mut()[si].want = None;
            let o = env.slots.borrow()[si].obj.clone();
            o.clear_future();
            fault("slot_cleared");
        }
        3 => list_op(env),
        4 => {
            // a wake-up nobody asked for
            let gs = env.gates.borrow().clone();
            if gs.is_empty() {
                return;
            }
            fault("spurious_wake");
            let g = &gs[choose(gs.len())];
            log(format!("spur{}", g.node));
            wake_all(&g.wakers);
        }
        5 => {
            let a = env.actors.borrow().clone();
            if a.is_empty() {
                return;
            }
            let a = &a[choose(a.len())];
            log(format!("act{}", a.node));
            a.todo.set(a.todo.get() + 1);
            wake_all(&a.wakers);
        }
        6 => {
            let b = env.buttons.borrow().clone();
            if b.is_empty() {
                return;
            }
            let (dom, id) = b[choose(b.len())];
            log(format!("click{id}"));
            fault("click_event");
            let ev = sim::new_event("MouseEvent", "click", true, true);
            sim::user_dispatch(dom, &ev);
        }
        _ => {
            let n = env.mounts.borrow().len();
            let m = choose(n);
            let t = env.mounts.borrow_mut()[m].task.take();
            if let Some(t) = t {
                log(format!("unmount{m}"));
                fault("unmount_mid_flight");
                drop(t);
            }
        }
    }
}
fn list_op(env: &E) {
    let n = env.lists.borrow().len();
    if n == 0 {
        return;
    }
    let li = choose(n);
    let (obj, items) = {
        let ls = env.lists.borrow();
        (ls[li].obj.clone(), ls[li].items.clone())
    };
    let keys: Vec<u32> = items.iter().map(|x| x.0).collect();
    let pick = || keys[choose(keys.len())];
    let before = || {
        let i = choose(keys.len() + 2);
        if i < keys.len() {
            Some(keys[i])
        } else if i == keys.len() {
            None
        } else {
            fault("list_unknown_before_key");
            Some(999_999)
        }
    };
    match weighted(&[4, 1, 3, 4, 4, 1]) {
        0 => {
            if env.budget.get() > 0 && keys.len() < 8 {
                let b = before();
                list_insert(env, li, None, b);
            }
        }
        1 => {
            // insert under an existing key: the old item is replaced
            if env.budget.get() > 0 && !keys.is_empty() {
                let k = pick();
                let b = before();
                fault("list_key_replaced");
                list_insert(env, li, Some(k), b);
            }
        }
        2 => {
            let k = if keys.is_empty() || chance(1, 6) { 888_888 } else { pick() };
            log(format!("rm{li}.{k}"));
            let had = keys.contains(&k);
            check!(obj.contains_key(&k) == had, "list-contains", "contains_key({k}) is {} but the model says {had}", !had);
            env.lists.borrow_mut()[li].items.retain(|x| x.0 != k);
            let r = obj.remove(&k);
            fault("list_item_removed");
            check!(r == had, "list-remove-result", "remove({k}) returned {r}, expected {had}");
        }
        3 => {
            if keys.is_empty() {
                return;
            }
            let (k, b) = (pick(), before());
            log(format!("mv{li}.{k}<{b:?}"));
            probe("list_moved");
            {
                let mut ls = env.lists.borrow_mut();
                let it = &mut ls[li].items;
                if b != Some(k) {
                    let p = it.iter().position(|x| x.0 == k).unwrap();
                    let x = it.remove(p);
                    match b.and_then(|b| it.iter().position(|x| x.0 == b)) {
                        Some(q) => it.insert(q, x),
                        None => it.push(x),
                    }
                }
            }
            obj.move_before(&k, b.as_ref());
        }
        4 => {
            if keys.is_empty() {
                return;
            }
            let (a, b) = (pick(), pick());
            log(format!("sw{li}.{a}.{b}"));
            probe("list_swapped");
            {
                let mut ls = env.lists.borrow_mut();
                let it = &mut ls[li].items;
                let p = it.iter().position(|x| x.0 == a).unwrap();
                let q = it.iter().position(|x| x.0 == b).unwrap();
                it.swap(p, q);
            }
            obj.swap(&a, &b);
        }
        _ => {
            let m = 2 + choose(3) as u32;
            let r = choose(2) as u32;
            log(format!("retain{li}.{m}.{r}"));
            fault("list_retain");
            env.lists.borrow_mut()[li].items.retain(|x| x.0 % m != r);
            obj.retain(|k| k % m != r);
        }
    }
}

/// What the live probes say should be on screen under node `id`.
fn expected(env: &E, ns: &[N], ls: &[ListM], id: usize, out: &mut Vec<String>) {
    let n = &ns[id];
    if n.dom == Some(u32::MAX) {
        // transparent node without a probe
        for k in &n.kids {
            expected(env, ns, ls, *k, out);
        }
        return;
    }
    if matches!(n.st, St::Unpolled | St::Dropped) {
        return;
    }
    match &n.k {
        K::Text(s) => out.push(format!("\"{s}\"")),
        K::Elem(t) => {
            let mut v = vec![];
            for k in &n.kids {
                expected(env, ns, ls, *k, &mut v);
            }
            out.push(format!("{t}[{}]", v.join(" ")));
        }
        K::Void(t) => out.push(format!("{t}[]")),
        K::ListRender(l) => {
            if frozen(env, ns, ls, id) && ls[*l].all.iter().any(|c| ns[*c].st != St::Dropped && !ls[*l].items.iter().any(|x| x.1 == *c)) {
                // The list is inside a component that completed and is only
                // still on screen because its parent is: nothing runs there
                // any more, so a removed item stays. Not a defined state.
                out.push(UNKNOWN.into());
            }
            for (_, k) in &ls[*l].items {
                expected(env, ns, ls, *k, out);
            }
        }
        K::Slot(si) => {
            for k in &env.slots.borrow()[*si].all {
                expected(env, ns, ls, *k, out);
            }
        }
        K::Gate(_) | K::Actor(_) => {}
        _ => {
            for k in &n.kids {
                expected(env, ns, ls, *k, out);
            }
        }
    }
}
const UNKNOWN: &str = "?unknown?";
fn frozen(env: &E, ns: &[N], ls: &[ListM], mut id: usize) -> bool {
    loop {
        if ns[id].st == St::Done {
            return true;
        }
        id = match ns[id].parent {
            Some(p) => p,
            None => {
                let ss = env.slots.borrow();
                if let Some(s) = ss.iter().find(|s| s.all.contains(&id)) {
                    let Some(r) = s.renders.iter().find(|r| ns[**r].st != St::Dropped) else { return false };
                    id = *r;
                    continue;
                }
                let Some(l) = ls.iter().find(|l| l.all.contains(&id)) else { return false };
                let Some(r) = l.renders.iter().find(|r| ns[**r].st != St::Dropped) else { return false };
                *r
            }
        };
    }
}
/// Liveness and conservation at a quiescent point.
fn settled(env: &E, ns: &[N], ls: &[ListM], ss: &[SlotM], id: usize, why: &str) {
    let n = &ns[id];
    if n.dom == Some(u32::MAX) {
        for k in &n.kids {
            let k = &ns[*k];
            check!(!(k.was_done && k.st != St::Dropped), "pend-after-keeps", "a completed `pend_after` future was not dropped");
            check!(k.st != St::Unpolled, "never-polled", "child of {id} was never polled");
        }
        return;
    }
    match n.st {
        St::Unpolled => violate("never-polled", format!("component {id} ({:?}) was never polled although {why} is running", n.k)),
        St::Dropped => violate("dropped-early", format!("component {id} ({:?}) was dropped although {why} still owns it", n.k)),
        St::Done | St::Live => {}
    }
    let live = n.st == St::Live;
    match &n.k {
        K::Elem(_) | K::Wrap => {
            if live {
                for k in &n.kids {
                    settled(env, ns, ls, ss, *k, &format!("its parent element {id}"));
                }
            }
        }
        K::Group(..) => {
            if live {
                for k in &n.kids {
                    settled(env, ns, ls, ss, *k, &format!("its combinator {id}"));
                }
            }
        }
        K::Seq(cur) => {
            if live {
                for (i, k) in n.kids.iter().enumerate() {
                    if i < *cur {
                        check!(ns[*k].st == St::Dropped, "zombie", "stage {i} of {id} is over but its component {k} is still alive");
                    } else if i == *cur {
                        settled(env, ns, ls, ss, *k, &format!("stage {i} of {id}"));
                    }
                }
            }
        }
        K::Gate(usize::MAX) => {}
        K::Gate(g) => {
            let open = env.gates.borrow()[*g].open.get();
            check!(!(live && open), "lost-wake", "event future {id} was signalled and woken but never polled again");
        }
        K::Actor(a) => {
            let todo = env.actors.borrow()[*a].todo.get();
            check!(!(live && todo > 0), "lost-wake", "component {id} was woken but never polled again");
        }
        K::Slot(s) => {
            let s = &ss[*s];
            for c in &s.all {
                if Some(*c) == s.want {
                    settled(env, ns, ls, ss, *c, &format!("slot {id} (last set content)"));
                } else {
                    check!(ns[*c].st == St::Dropped, "zombie", "slot {id}: replaced or cleared content {c} is still alive");
                }
            }
        }
        K::ListRender(l) => {
            if live {
                let l = &ls[*l];
                for c in &l.all {
                    if l.items.iter().any(|x| x.1 == *c) {
                        // a completed list item is done and released by its task
                        if ns[*c].was_done {
                            continue;
                        }
                        settled(env, ns, ls, ss, *c, &format!("list render {id}"));
                    } else {
                        check!(ns[*c].st == St::Dropped, "zombie", "list render {id}: removed or replaced item {c} is still alive");
                    }
                }
            }
        }
        K::PendAfter => {
            for k in &n.kids {
                let kn = &ns[*k];
                if kn.was_done {
                    check!(kn.st == St::Dropped, "pend-after-keeps", "component {k} completed inside pend_after but was not dropped");
                } else {
                    settled(env, ns, ls, ss, *k, &format!("pend_after {id}"));
                }
            }
        }
        K::Text(_) | K::Void(_) => {}
    }
}
/// Screen == mirror, for every mounted root. Valid whenever no component code
/// is running and no removed list item still waits for its cancellation.
pub fn check_screen(env: &E, when: &str) {
    let ns = env.nodes.borrow();
    let ls = env.lists.borrow();
    for (i, m) in env.mounts.borrow().iter().enumerate() {
        let mut v = vec![];
        if !m.foreign.is_empty() {
            v.push(m.foreign.clone());
        }
        expected(env, &ns, &ls, m.root, &mut v);
        let want = format!("main[{}]", v.join(" "));
        if want.contains(UNKNOWN) {
            probe("screen_check_skipped");
            continue;
        }
        let got = sim::with(|w| w.render(m.dom));
        check!(want == got, "screen-differs", "{when}: root {i} shows\n    {got}\n  but the live components are\n    {want}");
    }
}
pub fn check_settled(env: &E) {
    check_screen(env, "after everything settled");
    let ns = env.nodes.borrow();
    let ls = env.lists.borrow();
    let ss = env.slots.borrow();
    for m in env.mounts.borrow().iter() {
        if m.task.is_some() && !ns[m.root].was_done {
            settled(env, &ns, &ls, &ss, m.root, "mount_at");
        } else {
            check!(ns[m.root].st == St::Dropped, "zombie", "root {} was unmounted or completed but its future is still alive", m.root);
        }
    }
    // No component survives its owner.
    for (id, n) in ns.iter().enumerate() {
        if n.st != St::Dropped && n.dom.is_none() {
            if let Some(p) = n.parent {
                check!(
                    ns[p].st != St::Dropped || ns[p].dom.is_some() || matches!(ns[p].k, K::Slot(_)),
                    "zombie",
                    "component {id} ({:?}) is alive although its owner {p} was dropped",
                    n.k
                );
            }
        }
    }
}
pub fn settle(n: usize) {
    let mut k = 0;
    loop {
        let t = sim::pending_timers();
        if t.is_empty() {
            return;
        }
        sim::fire_timer(t[0].id);
        k += 1;
        check!(k < n, "livelock", "the executor keeps rescheduling itself");
    }
}
pub fn dom_id<T: AsRef<JsValue>>(x: &T) -> u32 {
    AsRef::<JsValue>::as_ref(x).obj_id().unwrap()
}
pub fn mount_new(env: &E, depth: usize) {
    let doc = web_sys::window().unwrap().document().unwrap();
    let main = doc.create_element("main").unwrap();
    let mut foreign = String::new();
    if chance(1, 3) {
        fault("foreign_nodes_in_container");
        let e = doc.create_element("aside").unwrap();
        main.append_child(&e).unwrap();
        foreign = "aside[]".into();
    }
    doc.body().unwrap().append_child(&main).unwrap();
    let root = env.nodes.borrow().len();
    let dom = dom_id(&main);
    log(format!("mount{root}"));
    let task = if chance(1, 4) {
        probe("static_root");
        stat(env, None, MountIn(main.into()))
    } else {
        let fut = gen(env, None, depth);
        mount_at(fut, main.into())
    };
    env.mounts.borrow_mut().push(Mount { dom, root, task: Some(task), foreign });
}

pub fn drive(cfg: Cfg) {
    let env: E = Rc::new(Env::default());
    env.cfg.set(cfg);
    env.budget.set(cfg.nodes);
    let depth = 2 + choose(3);
    for _ in 0..1 + choose(2) {
        span(|| mount_new(&env, depth));
    }
    let steps = 3 + choose(cfg.steps);
    for _ in 0..steps {
        span(|| {
            let timers = sim::pending_timers();
            match weighted(&[if timers.is_empty() { 0 } else { 5 }, 6, cfg.settle]) {
                0 => {
                    let t = &timers[choose(timers.len())];
                    sim::fire_timer(t.id);
                }
                1 => random_op(&env, false),
                _ => {
                    settle(200);
                    check_settled(&env);
                }
            }
        });
    }
    settle(500);
    check_settled(&env);
    // Teardown: unmount everything.
    env.tearing.set(true);
    let n = env.mounts.borrow().len();
    for m in 0..n {
        let t = env.mounts.borrow_mut()[m].task.take();
        drop(t);
    }
    settle(500);
    check_settled(&env);
    for m in env.mounts.borrow().iter() {
        let left = sim::with(|w| w.children_of(m.dom).len());
        check!(left == usize::from(!m.foreign.is_empty()), "leftover-nodes", "{left} nodes left in the container after unmount");
    }
    // Drop the shared objects: no future may survive them.
    let slots = std::mem::take(&mut *env.slots.borrow_mut());
    let lists = std::mem::take(&mut *env.lists.borrow_mut());
    drop(slots);
    drop(lists);
    {
        let ns = env.nodes.borrow();
        for (id, n) in ns.iter().enumerate() {
            check!(n.st == St::Dropped || n.dom.is_some(), "leak", "component {id} ({:?}) was never dropped", n.k);
        }
    }
    let l = sim::with(|w| w.listener_count());
    check!(l == 0, "listener-leak", "{l} event listeners still registered after teardown");
    // Break Rc cycles kept by wakers.
    for g in env.gates.borrow().iter() {
        g.wakers.borrow_mut().clear();
    }
    for a in env.actors.borrow().iter() {
        a.wakers.borrow_mut().clear();
    }
    env.gates.borrow_mut().clear();
    env.actors.borrow_mut().clear();
    crate::alloc::verify_quarantine();
}
const BASE: Cfg = Cfg { steps: 30, nodes: 60, w_slot: 1, w_list: 1, w_seq: 2, w_gate: 2, w_unmount: 0, w_static: 1, w_wide: 0, crowds: false, w_tabs: 1, reattach: true, settle: 2 };

pub fn tree() {
    drive(BASE);
}
pub fn wide_tree() {
    drive(Cfg { w_wide: 12, w_unmount: 1, w_seq: 1, steps: 25, ..BASE });
}
pub fn teardown() {
    if chance(1, 30) {
        // Hundreds of nodes go at once.
        return drive(Cfg { w_unmount: 1, w_seq: 8, w_gate: 1, w_static: 0, w_wide: 24, crowds: true, steps: 15, ..BASE });
    }
    drive(Cfg { w_unmount: 1, w_seq: 4, w_gate: 3, w_static: 4, w_wide: 3, steps: 15, ..BASE });
}
pub fn slots() {
    drive(Cfg { w_tabs: 3, w_slot: 6, w_list: 0, w_seq: 1, steps: 40, ..BASE });
}
pub fn lists() {
    drive(Cfg { w_tabs: 3, w_list: 6, w_slot: 0, w_seq: 2, steps: 50, nodes: 80, ..BASE });
}

/// Unboxed, unprobed component types: memory layout of the real futures is
/// undisturbed. Checks only the screen and the absence of panics.
pub fn plain() {
    use std::future::{pending, ready};
    let doc = web_sys::window().unwrap().document().unwrap();
    let main = doc.create_element("main").unwrap();
    doc.body().unwrap().append_child(&main).unwrap();
    let dom = dom_id(&main);
    let main: web_sys::Node = main.into();
    fn t(s: &str) -> async_ui_web_core::ContainerNodeFuture<std::future::Pending<()>> {
        s.render()
    }
    macro_rules! shapes {
        ($($f:expr => $e:expr),* $(,)?) => {{
            let n = [$(stringify!($f)),*].len();
            let c = choose(n);
            let mut i = 0;
            let mut r = None;
            $(
                if r.is_none() && i == c {
                    let task: Box<dyn std::any::Any> = Box::new(mount_at($f, main.clone()));
                    r = Some((task, $e.to_string()));
                }
                i += 1;
            )*
            let _ = i;
            r.unwrap()
        }};
    }
    let (task, want) = shapes! {
        join((t("a"), t("b"))) => r#""a" "b""#,
        join((t("a"), t("b"), t("c"))) => r#""a" "b" "c""#,
        join([t("a"), t("b"), t("c")]) => r#""a" "b" "c""#,
        join(vec![t("a"), t("b"), t("c")]) => r#""a" "b" "c""#,
        join((join((t("a"), t("b"))), join((t("c"), t("d"))))) => r#""a" "b" "c" "d""#,
        join((join([t("a"), t("b")]), join((t("c"), t("d"))), t("e"))) => r#""a" "b" "c" "d" "e""#,
        Div::new().render(join((t("a"), t("b")))) => r#"div["a" "b"]"#,
        join((Div::new().render(t("a")), Div::new().render(t("b")))) => r#"div["a"] div["b"]"#,
        join((Div::new().render(Div::new().render(t("a"))), Div::new().render(Span::new().render(t("b"))))) => r#"div[div["a"]] div[span["b"]]"#,
        race((t("a"), t("b"), pending::<()>())) => r#""a" "b""#,
        async { join((t("a"), t("b"))).await } => r#""a" "b""#,
        async { race((join((t("a"), t("b"))), async { ready(()).await; join((t("c"), t("d"))).await })).await.into_any() } => r#""a" "b" "c" "d""#,
        join((async { t("a").await }, async { t("b").await }, async { t("c").await })) => r#""a" "b" "c""#,
        join((t("a").pend_after::<()>(), t("b").pend_after::<()>())) => r#""a" "b""#,
        t("a").meanwhile(join((t("b"), t("c")))) => r#""a" "b" "c""#,
        async { race((ready(()), Div::new().render(join((t("a"), t("b")))).pend_after())).await; join((t("c"), t("d"))).await } => r#""c" "d""#,
        async { race((Div::new().render(join((t("a"), t("b")))).pend_after(), ready(()).meanwhile(t("x")))).await; join((t("c"), t("d"))).await } => r#""c" "d""#,
    };
    log(format!("mounted {want}"));
    if chance(3, 4) {
        settle(50);
        let got = sim::with(|w| w.render(dom));
        check!(got == format!("main[{want}]"), "screen-differs", "shows {got}, expected main[{want}]");
    }
    fault("unmount_mid_flight");
    drop(task);
    settle(50);
    let left = sim::with(|w| w.children_of(dom).len());
    check!(left == 0, "leftover-nodes", "{left} nodes left in the container after unmount");
}
trait IntoAny {
    fn into_any(self);
}
impl<T> IntoAny for T {
    fn into_any(self) {}
}
