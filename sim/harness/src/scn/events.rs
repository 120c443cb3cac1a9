//! Event futures (C07): consumers waiting on elements of a small tree, user
//! and synthetic events, slow consumers, cancellation, listener options.
use super::ui::settle;
use crate::ctx::*;
use async_ui_web_html::events::{EmitElementEvent, EmitEvent, EmitHtmlElementEvent, EventFutureStream};
use async_ui_web::{join, mount_at, race};
use futures_core::Stream;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::sim;
use wasm_bindgen::{JsCast, JsValue};

type Fut = Pin<Box<dyn Future<Output = ()>>>;

/// Any event stream, yielding the event object.
trait AnyStream {
    fn next(&mut self, cx: &mut Context<'_>, as_future: bool) -> Poll<Option<web_sys::Event>>;
    fn capture(&mut self, b: bool);
    fn passive(&mut self, b: bool);
}
impl<E: JsCast + 'static> AnyStream for EventFutureStream<E> {
    fn next(&mut self, cx: &mut Context<'_>, as_future: bool) -> Poll<Option<web_sys::Event>> {
        if as_future {
            Pin::new(self).poll(cx).map(|e| Some(e.unchecked_into()))
        } else {
            Pin::new(self).poll_next(cx).map(|e| e.map(|e| e.unchecked_into()))
        }
    }
    fn capture(&mut self, b: bool) {
        self.set_capture(b)
    }
    fn passive(&mut self, b: bool) {
        self.set_passive(b)
    }
}

type Mk = fn(&web_sys::HtmlElement) -> Box<dyn AnyStream>;
macro_rules! named { ($($m:ident $n:literal)*) => { &[$(($n, (|e: &web_sys::HtmlElement| -> Box<dyn AnyStream> { Box::new(e.$m()) }) as Mk)),*] } }
/// The typed shortcuts, with the event each is documented to listen for.
static NAMED: &[(&str, Mk)] = named! {
    until_click "click" until_input "input" until_keydown "keydown" until_change "change"
    until_auxclick "auxclick" until_blur "blur" until_cancel "cancel" until_compositionend "compositionend"
    until_compositionstart "compositionstart" until_compositionupdate "compositionupdate"
    until_contextmenu "contextmenu" until_dblclick "dblclick" until_drag "drag" until_dragend "dragend"
    until_dragenter "dragenter" until_dragleave "dragleave" until_dragover "dragover" until_dragstart "dragstart"
    until_drop "drop" until_error "error" until_focus "focus" until_focusin "focusin" until_focusout "focusout"
    until_fullscreenchange "fullscreenchange" until_fullscreenerror "fullscreenerror" until_keyup "keyup"
    until_load "load" until_mousedown "mousedown" until_mouseenter "mouseenter" until_mouseleave "mouseleave"
    until_mousemove "mousemove" until_mouseout "mouseout" until_mouseover "mouseover" until_mouseup "mouseup"
    until_scroll "scroll" until_securitypolicyviolation "securitypolicyviolation" until_select "select"
    until_touchcancel "touchcancel" until_touchend "touchend" until_touchmove "touchmove" until_touchstart "touchstart"
    until_wheel "wheel"
};

#[derive(Clone, Debug)]
struct Rec {
    target: u32,
    name: String,
    capture: bool,
    passive: bool,
    /// Browser listener, once the stream was polled.
    uid: Option<u64>,
    pending: Option<u32>,
    awaiting: bool,
    dropped: bool,
}
#[derive(Default)]
struct Env {
    recs: RefCell<Vec<Rec>>,
    els: RefCell<Vec<web_sys::HtmlElement>>,
    names: RefCell<Vec<usize>>,
    in_poll: Cell<u32>,
    /// Innermost-last stack of (event, passive listener?) being invoked.
    calls: RefCell<Vec<(u32, bool)>>,
    depth: Cell<u32>,
    /// Events whose default some consumer prevented in time.
    prevented: RefCell<BTreeMap<u32, bool>>,
    cancelable: RefCell<BTreeMap<u32, bool>>,
    consumers: RefCell<Vec<Rc<Consumer>>>,
    budget: Cell<i32>,
}
type E = Rc<Env>;
struct Consumer {
    id: usize,
    gate: Cell<u32>,
    cancelled: Cell<bool>,
    wakers: RefCell<Vec<Waker>>,
    gate_wakers: RefCell<Vec<Waker>>,
    got: Cell<u32>,
    alive: Cell<bool>,
}
fn eid(e: &JsValue) -> u32 {
    e.obj_id().expect("event object")
}

/// An event stream together with the model of what it must do.
struct Listen {
    env: E,
    i: usize,
    inner: Option<Box<dyn AnyStream>>,
    as_future: bool,
}
fn all_uids() -> BTreeMap<u64, (u32, String, bool, bool)> {
    sim::with(|w| {
        let mut m = BTreeMap::new();
        for (id, o) in w.objs.iter().enumerate() {
            for l in &o.listeners {
                m.insert(l.uid, (id as u32, l.ty.clone(), l.capture, l.passive));
            }
        }
        m
    })
}
impl Listen {
    fn new(env: &E, target: usize) -> Listen {
        let els = env.els.borrow();
        let names = env.names.borrow();
        let mut inner: Box<dyn AnyStream>;
        let (tid, name): (u32, String);
        let win = chance(1, 12);
        let nm = NAMED[names[choose(names.len())]];
        name = nm.0.to_string();
        if win {
            let t: web_sys::EventTarget = if chance(1, 2) { web_sys::window().unwrap().into() } else { web_sys::window().unwrap().document().unwrap().into() };
            tid = eid(t.as_ref());
            inner = Box::new(t.until_event::<web_sys::Event>(Cow::Owned(name.clone())));
        } else {
            let e = &els[target];
            tid = eid(e.as_ref());
            inner = if chance(2, 3) { nm.1(e) } else { Box::new(e.until_event::<web_sys::Event>(Cow::Owned(name.clone()))) };
        }
        let (mut capture, mut passive) = (false, false);
        if chance(1, 3) {
            capture = chance(2, 3);
            inner.capture(capture);
        }
        if chance(1, 4) {
            passive = chance(2, 3);
            inner.passive(passive);
        }
        let i = env.recs.borrow().len();
        log(format!("stream{i} {name} on {tid} cap={capture} pass={passive}"));
        env.recs.borrow_mut().push(Rec { target: tid, name, capture, passive, uid: None, pending: None, awaiting: false, dropped: false });
        Listen { env: env.clone(), i, inner: Some(inner), as_future: chance(1, 2) }
    }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<web_sys::Event> {
        step();
        let (first, had) = {
            let r = &mut self.env.recs.borrow_mut()[self.i];
            r.awaiting = true;
            (r.uid.is_none(), r.pending)
        };
        if !first && chance(1, 24) {
            // Too late: the listener stays as it was registered, and is removed as such.
            fault("options_set_after_start");
            let inner = self.inner.as_mut().unwrap();
            if chance(2, 3) {
                inner.capture(chance(1, 2));
            } else {
                inner.passive(chance(1, 2));
            }
        }
        let before = first.then(all_uids);
        let r = self.inner.as_mut().unwrap().next(cx, self.as_future);
        let mut recs = self.env.recs.borrow_mut();
        let rec = &mut recs[self.i];
        if let Some(before) = before {
            let mut now = all_uids();
            now.retain(|k, _| !before.contains_key(k));
            check!(now.len() == 1, "listener-not-registered", "waiting for {} on node {} registered {} listeners", rec.name, rec.target, now.len());
            let (uid, at) = now.into_iter().next().unwrap();
            let want = (rec.target, rec.name.clone(), rec.capture, rec.passive);
            check!(at == want, "wrong-listener", "asked for (target, event, capture, passive) {want:?}, the browser was told {at:?}");
            rec.uid = Some(uid);
        }
        match r {
            Poll::Ready(Some(ev)) => {
                let id = eid(ev.as_ref());
                rec.awaiting = false;
                rec.pending = None;
                match had {
                    None => violate("phantom-event", format!("stream{} yielded event {id} although none came since the last one", self.i)),
                    Some(p) => check!(p == id, "wrong-event", "stream{} yielded event {id}, the latest is {p}", self.i),
                }
                Poll::Ready(ev)
            }
            Poll::Ready(None) => violate("stream-ended", format!("event stream{} ended", self.i)),
            Poll::Pending => {
                check!(had.is_none(), "event-lost", "stream{} has event {had:?} to deliver but is pending", self.i);
                Poll::Pending
            }
        }
    }
    fn next(&mut self) -> Next<'_> {
        Next(self)
    }
}
struct Next<'a>(&'a mut Listen);
impl Future for Next<'_> {
    type Output = web_sys::Event;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<web_sys::Event> {
        self.0.poll(cx)
    }
}
impl Drop for Next<'_> {
    fn drop(&mut self) {
        let i = self.0.i;
        self.0.env.recs.borrow_mut()[i].awaiting = false;
    }
}
impl Drop for Listen {
    fn drop(&mut self) {
        drop(self.inner.take());
        let mut recs = self.env.recs.borrow_mut();
        let r = &mut recs[self.i];
        r.dropped = true;
        r.awaiting = false;
        log(format!("-stream{}", self.i));
        if let Some(uid) = r.uid {
            check!(!all_uids().contains_key(&uid), "listener-leak", "stream{} ({} on node {}, capture={}) was dropped, its listener is still registered", self.i, r.name, r.target, r.capture);
        }
    }
}

fn wake_consumer(c: &Consumer) {
    let mut ws: Vec<Waker> = c.wakers.borrow().clone();
    ws.extend(c.gate_wakers.borrow().iter().cloned());
    for w in ws {
        w.wake_by_ref();
    }
}
fn send(env: &E, user: bool) {
    let (target, ev) = {
        let els = env.els.borrow();
        let names = env.names.borrow();
        let t = eid(els[choose(els.len())].as_ref());
        let n = NAMED[names[choose(names.len())]].0;
        let bubbles = chance(3, 4);
        let cancelable = chance(2, 3);
        let ev = sim::new_event("Event", n, bubbles, cancelable);
        env.cancelable.borrow_mut().insert(eid(&ev), cancelable);
        (t, ev)
    };
    let id = eid(&ev);
    env.depth.set(env.depth.get() + 1);
    let ok = if user { sim::user_dispatch(target, &ev) } else { sim::dispatch(target, &ev) };
    env.depth.set(env.depth.get() - 1);
    let want = *env.prevented.borrow().get(&id).unwrap_or(&false);
    check!(ok == !want, "prevent-default", "event {id}: consumers prevented default in time = {want}, the browser saw {}", !ok);
}
/// What a consumer does with an event it received.
fn handle(env: &E, me: &Consumer, ev: &web_sys::Event) {
    let id = eid(ev.as_ref());
    log(format!("c{} got {id}", me.id));
    me.got.set(me.got.get() + 1);
    match weighted(&[5, 3, 1, 1, 2, 2, 2]) {
        0 => {}
        1 => {
            let innermost = env.calls.borrow().iter().rev().find(|c| c.0 == id).map(|c| c.1);
            if *env.cancelable.borrow().get(&id).unwrap() {
                match innermost {
                    Some(false) => {
                        env.prevented.borrow_mut().insert(id, true);
                        probe("default_prevented_in_dispatch");
                    }
                    Some(true) => probe("prevent_in_passive"),
                    None => {
                        // too late for the browser, sticks to the event
                    }
                }
            }
            ev.prevent_default();
        }
        2 => ev.stop_propagation(),
        3 => ev.stop_immediate_propagation(),
        4 => {
            if env.depth.get() < 3 && env.budget.get() > 0 {
                env.budget.set(env.budget.get() - 1);
                fault("event_dispatched_in_poll");
                send(env, false);
            }
        }
        5 => {
            let cs = env.consumers.borrow().clone();
            let c = &cs[choose(cs.len())];
            c.gate.set(c.gate.get() + 1);
            wake_consumer(c);
        }
        _ => {
            let cs = env.consumers.borrow().clone();
            let c = &cs[choose(cs.len())];
            if chance(1, 2) {
                fault("cancel_from_handler");
                c.cancelled.set(true);
            } else {
                fault("spurious_wake");
            }
            wake_consumer(c);
        }
    }
}
fn keep(w: &RefCell<Vec<Waker>>, cx: &mut Context<'_>) {
    let mut w = w.borrow_mut();
    if w.len() >= 3 {
        w.remove(0);
    }
    w.push(cx.waker().clone());
}
async fn gate(c: Rc<Consumer>, n: u32) {
    poll_fn(|cx| {
        keep(&c.gate_wakers, cx);
        if c.gate.get() >= n {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    })
    .await
}
fn style(env: E, c: Rc<Consumer>) -> Fut {
    let n = env.els.borrow().len();
    let t = choose(n);
    match weighted(&[4, 3, 3, 2]) {
        0 => Box::pin(async move {
            // a new future for each event
            loop {
                let ev = {
                    let mut l = Listen::new(&env, t);
                    l.next().await
                };
                handle(&env, &c, &ev);
            }
        }),
        1 => Box::pin(async move {
            let mut l = Listen::new(&env, t);
            loop {
                let ev = l.next().await;
                handle(&env, &c, &ev);
            }
        }),
        2 => Box::pin(async move {
            // slow: after each event busy until its gate opens
            let mut l = Listen::new(&env, t);
            loop {
                let ev = l.next().await;
                handle(&env, &c, &ev);
                let want = c.gate.get() + 1;
                gate(c.clone(), want).await;
                probe("slow_consumer_resumed");
            }
        }),
        _ => Box::pin(async move {
            // whichever of two comes first; the other is dropped or kept
            let mut kept = Listen::new(&env, choose(n));
            loop {
                let mut other = Listen::new(&env, t);
                let ev = race((kept.next(), other.next())).await;
                handle(&env, &c, &ev);
            }
        }),
    }
}
struct Task {
    env: E,
    inner: Fut,
}
impl Future for Task {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        step();
        let e = self.env.clone();
        check!(e.in_poll.get() == 0, "reentrant-poll", "a task is polled while another poll is in progress");
        e.in_poll.set(e.in_poll.get() + 1);
        let r = self.inner.as_mut().poll(cx);
        e.in_poll.set(e.in_poll.get() - 1);
        r
    }
}
struct Alive(Rc<Consumer>);
impl Drop for Alive {
    fn drop(&mut self) {
        self.0.alive.set(false);
    }
}
fn consumer(env: &E) -> Fut {
    let id = env.consumers.borrow().len();
    let c = Rc::new(Consumer { id, gate: Cell::new(0), cancelled: Cell::new(false), wakers: RefCell::default(), gate_wakers: RefCell::default(), got: Cell::new(0), alive: Cell::new(true) });
    env.consumers.borrow_mut().push(c.clone());
    let f = style(env.clone(), c.clone());
    let c2 = c.clone();
    let cancel = poll_fn(move |cx| {
        keep(&c2.wakers, cx);
        if c2.cancelled.get() {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    });
    let a = Alive(c);
    Box::pin(async move {
        let _a = a;
        race((f, cancel)).await;
    })
}
fn check_registry(env: &E, when: &str) {
    let got: Vec<u64> = all_uids().into_keys().collect();
    let mut want: Vec<u64> = env.recs.borrow().iter().filter(|r| !r.dropped).filter_map(|r| r.uid).collect();
    want.sort();
    check!(got == want, "listener-registry", "{when}: the browser has {} listeners, {} event futures are waiting", got.len(), want.len());
}
fn check_rest(env: &E) {
    check_registry(env, "at rest");
    for (i, r) in env.recs.borrow().iter().enumerate() {
        check!(!(r.awaiting && r.pending.is_some()), "event-lost", "at rest stream{i} is awaited and has undelivered event {:?}", r.pending);
    }
}

pub fn events() {
    let env: E = Rc::default();
    env.budget.set(60);
    let doc = web_sys::window().unwrap().document().unwrap();
    let body: web_sys::HtmlElement = doc.body().unwrap();
    env.els.borrow_mut().push(body);
    for _ in 0..2 + choose(3) {
        let e: web_sys::HtmlElement = doc.create_element("div").unwrap().unchecked_into();
        let p = choose(env.els.borrow().len());
        env.els.borrow()[p].append_child(&e).unwrap();
        env.els.borrow_mut().push(e);
    }
    let nn = 1 + choose(3);
    for _ in 0..nn {
        // mostly click, now and then every other shortcut
        let k = if chance(1, 3) { choose(NAMED.len()) } else { choose(3) };
        env.names.borrow_mut().push(k);
    }
    let e2 = env.clone();
    sim::with(|w| {
        w.on_listener = Some(Rc::new(move |uid, ev, before| {
            let id = eid(ev);
            let env = &e2;
            let i = env.recs.borrow().iter().position(|r| r.uid == Some(uid));
            let Some(i) = i else { violate("unknown-listener", format!("listener {uid} belongs to no event future")) };
            if before {
                check!(!env.recs.borrow()[i].dropped, "zombie-listener", "listener of dropped stream{i} invoked");
                env.recs.borrow_mut()[i].pending = Some(id);
                let p = env.recs.borrow()[i].passive;
                env.calls.borrow_mut().push((id, p));
                log(format!("call stream{i}"));
            } else {
                env.calls.borrow_mut().pop();
                if env.in_poll.get() == 0 {
                    let r = env.recs.borrow()[i].clone();
                    check!(!(r.awaiting && r.pending == Some(id)), "late-delivery", "stream{i} was awaited, but event {id} was not handled before the listener returned");
                } else {
                    probe("listener_called_during_poll");
                }
            }
        }));
    });
    let fn0 = {
        // instantiate the executor's own closure before counting
        mount_at(async {}, web_sys::window().unwrap().document().unwrap().create_element("p").unwrap().into()).detach();
        settle(100);
        sim::with(|w| w.live_functions())
    };
    let mut tasks: Vec<Option<async_executor::Task<()>>> = vec![];
    let spawn = |tasks: &mut Vec<Option<async_executor::Task<()>>>| {
        let n = 1 + choose(3);
        let mut v: Vec<Fut> = vec![];
        for _ in 0..n {
            v.push(consumer(&env));
        }
        let inner: Fut = Box::pin(async move {
            join(v).await;
        });
        let el = web_sys::window().unwrap().document().unwrap().create_element("main").unwrap();
        tasks.push(Some(mount_at(Task { env: env.clone(), inner }, el.into())));
    };
    span(|| spawn(&mut tasks));
    for _ in 0..3 + choose(18) {
        span(|| match weighted(&[8, 3, 2, 2, 1, 1, 1]) {
            0 => send(&env, true),
            1 => {
                let t = sim::pending_timers();
                if !t.is_empty() {
                    sim::fire_timer(t[choose(t.len())].id);
                }
            }
            2 => {
                let cs = env.consumers.borrow().clone();
                let c = &cs[choose(cs.len())];
                c.gate.set(c.gate.get() + 1);
                wake_consumer(c);
            }
            3 => {
                settle(200);
                check_rest(&env);
            }
            4 => {
                let cs = env.consumers.borrow().clone();
                let c = &cs[choose(cs.len())];
                fault("consumer_cancelled");
                c.cancelled.set(true);
                wake_consumer(c);
            }
            5 => {
                let k = choose(tasks.len());
                if let Some(t) = tasks[k].take() {
                    fault("unmount");
                    drop(t);
                }
            }
            _ => {
                if tasks.len() < 4 {
                    spawn(&mut tasks);
                }
            }
        });
        check_registry(&env, "after a step");
    }
    settle(500);
    check_rest(&env);
    for c in env.consumers.borrow().iter() {
        check!(!(c.alive.get() && c.cancelled.get()), "not-cancelled", "consumer c{} still alive", c.id);
        if c.got.get() > 0 {
            probe("consumer_got_events");
        }
    }
    tasks.clear();
    settle(100);
    check_registry(&env, "after unmounting everything");
    check!(sim::with(|w| w.listener_count()) == 0, "listener-leak", "listeners left after unmounting everything");
    let fns = sim::with(|w| w.live_functions());
    check!(fns == fn0, "closure-leak", "{fns} browser callbacks alive after unmounting everything, {fn0} before");
    sim::with(|w| w.on_listener = None);
    env.consumers.borrow_mut().clear();
}
