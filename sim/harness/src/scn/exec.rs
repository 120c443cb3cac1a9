//! Executor liveness and non-reentrancy (C06).
use super::ui::settle;
use crate::ctx::*;
use async_ui_web::executor::get_executor;
use async_ui_web::{mount, mount_at};
use async_ui_web_core::executor::{run_now, schedule, set_executor_future};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::closure::Closure;
use wasm_bindgen::sim;
use wasm_bindgen::JsCast;

/// A browser listener as the framework installs them: wake something, then
/// let the executor run.
fn listener(f: Rc<dyn Fn()>) -> Closure<dyn Fn(web_sys::Event)> {
    Closure::new(move |_e: web_sys::Event| f())
}

// ------------------------------------------------------------- root future
#[derive(Default)]
struct Root {
    woken: Cell<bool>,
    in_poll: Cell<bool>,
    wakers: RefCell<Vec<Waker>>,
    polls: Cell<u32>,
    done: Cell<bool>,
    budget: Cell<i32>,
    /// How often in a row it is still going to wake itself.
    streak: Cell<u32>,
    set: Cell<bool>,
    /// A wake from before this future was set may still be pending.
    maybe: Cell<bool>,
}
struct RootFut(Rc<Root>, u32);
fn root_wake(r: &Root) {
    let ws: Vec<Waker> = r.wakers.borrow().clone();
    if ws.is_empty() || chance(1, 3) {
        log("schedule()");
        r.woken.set(true);
        schedule();
    } else {
        log("wake");
        r.woken.set(true);
        let w = &ws[choose(ws.len())];
        if chance(1, 2) {
            w.wake_by_ref();
        } else {
            w.clone().wake();
        }
    }
}
impl Future for RootFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        step();
        let r = &self.0;
        check!(!r.in_poll.get(), "reentrant-poll", "the root future is polled while it is being polled");
        check!(!r.done.get(), "poll-after-complete", "the root future is polled after it completed");
        check!(r.woken.get() || r.maybe.get(), "needless-poll", "the root future is polled without a wake");
        r.in_poll.set(true);
        r.woken.set(false);
        r.maybe.set(false);
        r.polls.set(r.polls.get() + 1);
        log("poll");
        {
            let mut w = r.wakers.borrow_mut();
            if w.len() >= 3 {
                w.remove(0);
            }
            w.push(cx.waker().clone());
        }
        if r.budget.get() > 0 {
            r.budget.set(r.budget.get() - 1);
            for _ in 0..choose(3) {
                match choose(4) {
                    0 => {
                        fault("wake_in_own_poll");
                        root_wake(r);
                    }
                    1 => {
                        fault("nested_run_now");
                        run_now();
                    }
                    2 => {
                        fault("wake_and_run_in_own_poll");
                        root_wake(r);
                        run_now();
                    }
                    _ => {
                        // the waker dies within the poll
                        r.wakers.borrow_mut().clear();
                    }
                }
            }
        }
        if r.streak.get() > 0 {
            r.streak.set(r.streak.get() - 1);
            root_wake(r);
        } else if r.budget.get() > 0 && chance(1, 100) {
            fault("long_streak_of_own_wakes");
            r.streak.set(range(4, if chance(1, 8) { 1500 } else { 150 }) as u32);
            root_wake(r);
        }
        r.in_poll.set(false);
        if self.1 > 0 && r.polls.get() >= self.1 {
            log("root done");
            probe("root_completed");
            r.done.set(true);
            r.set.set(false);
            return Poll::Ready(());
        }
        Poll::Pending
    }
}
pub fn core() {
    let r: Rc<Root> = Rc::default();
    r.budget.set(30);
    let fresh = |r: &Rc<Root>, first: bool| {
        r.polls.set(0);
        r.done.set(false);
        r.maybe.set(r.woken.get() || r.maybe.get());
        if !first {
            r.woken.set(false);
        }
        r.set.set(true);
        let n = if chance(1, 3) { 1 + choose(4) as u32 } else { 0 };
        set_executor_future(Box::new(RootFut(r.clone(), n)));
    };
    let early = chance(1, 4);
    if early {
        fault("wake_before_future_set");
        root_wake(&r);
    }
    fresh(&r, true);
    let el = web_sys::window().unwrap().document().unwrap().create_element("b").unwrap();
    let r2 = r.clone();
    let l = listener(Rc::new(move || {
        let nested = r2.in_poll.get();
        if chance(2, 3) {
            root_wake(&r2);
        }
        run_now();
        if !nested {
            check!(!(r2.woken.get() && r2.set.get()), "not-run-in-dispatch", "woken from an event, not polled when the event's handling returned");
        }
    }));
    el.add_event_listener_with_callback("click", l.as_ref().unchecked_ref()).unwrap();
    let el_id = super::ui::dom_id(&el);
    for _ in 0..2 + choose(20) {
        span(|| match weighted(&[5, 4, 3, 2, 2, 1]) {
            0 => root_wake(&r),
            1 => {
                let t = sim::pending_timers();
                if !t.is_empty() {
                    sim::fire_timer(t[choose(t.len())].id);
                }
            }
            2 => {
                let ev = sim::new_event("Event", "click", true, true);
                sim::user_dispatch(el_id, &ev);
            }
            3 => {
                log("run_now");
                run_now();
                check!(!(r.woken.get() && r.set.get()), "not-run", "run_now returned with a woken root future");
            }
            4 => {
                settle(200);
                check!(!(r.woken.get() && r.set.get()), "lost-wake", "the browser is idle, the root future was woken and not polled");
                if r.set.get() {
                    probe("idle_checked");
                }
            }
            _ => {
                fault("root_replaced");
                fresh(&r, false);
                if chance(1, 2) {
                    root_wake(&r);
                }
            }
        });
    }
    settle(300);
    check!(!(r.woken.get() && r.set.get()), "lost-wake", "the browser is idle, the root future was woken and not polled");
    r.wakers.borrow_mut().clear();
    set_executor_future(Box::new(std::future::pending()));
}

// ------------------------------------------------------------- spawned tasks
struct T {
    id: usize,
    woken: Cell<bool>,
    done: Cell<bool>,
    dropped: Cell<bool>,
    wakers: RefCell<Vec<Waker>>,
    polls: Cell<u32>,
    life: Cell<u32>,
    /// How often in a row it is still going to wake itself.
    streak: Cell<u32>,
}
#[derive(Default)]
struct Env {
    tasks: RefCell<Vec<Rc<T>>>,
    handles: RefCell<Vec<Option<async_executor::Task<()>>>>,
    in_poll: Cell<u32>,
    budget: Cell<i32>,
    timers: RefCell<Vec<Closure<dyn Fn()>>>,
    el: Cell<u32>,
    long: Cell<bool>,
}
type E = Rc<Env>;
struct TaskFut(Rc<T>, E);
impl Future for TaskFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        step();
        let (t, env) = (&self.0, &self.1);
        check!(env.in_poll.get() == 0, "reentrant-poll", "task {} polled while another poll is in progress", t.id);
        check!(!t.done.get(), "poll-after-complete", "task {} polled after completion", t.id);
        check!(t.woken.get(), "needless-poll", "task {} polled without a wake", t.id);
        env.in_poll.set(1);
        t.woken.set(false);
        t.polls.set(t.polls.get() + 1);
        log(format!("p{}", t.id));
        {
            let mut w = t.wakers.borrow_mut();
            if w.len() >= 2 {
                w.remove(0);
            }
            w.push(cx.waker().clone());
        }
        if env.budget.get() > 0 {
            for _ in 0..weighted(&[3, 3, 2]) {
                env.budget.set(env.budget.get() - 1);
                act(env);
            }
        }
        if t.streak.get() > 0 {
            t.streak.set(t.streak.get() - 1);
            t.woken.set(true);
            cx.waker().wake_by_ref();
        }
        env.in_poll.set(0);
        if t.polls.get() >= t.life.get() {
            t.done.set(true);
            return Poll::Ready(());
        }
        Poll::Pending
    }
}
impl Drop for TaskFut {
    fn drop(&mut self) {
        log(format!("-{}", self.0.id));
        check!(!self.0.dropped.get(), "double-drop", "task {} dropped twice", self.0.id);
        self.0.dropped.set(true);
        self.0.wakers.borrow_mut().clear();
    }
}
fn wake(env: &E, k: usize) {
    let t = env.tasks.borrow()[k].clone();
    if t.done.get() || t.dropped.get() {
        return;
    }
    let ws: Vec<Waker> = t.wakers.borrow().clone();
    if !ws.is_empty() {
        log(format!("w{k}"));
        t.woken.set(true);
        ws[choose(ws.len())].wake_by_ref();
    }
}
fn spawn(env: &E) {
    let id = env.tasks.borrow().len();
    if id > 600 {
        return;
    }
    let life = if chance(1, 2) { 1 + choose(5) as u32 } else { 10_000 };
    let streak = if env.long.get() && chance(1, 2) {
        fault("long_streak_of_own_wakes");
        range(50, 3000) as u32
    } else {
        0
    };
    let t = Rc::new(T { id, woken: Cell::new(true), done: Cell::new(false), dropped: Cell::new(false), wakers: RefCell::default(), polls: Cell::new(0), life: Cell::new(life), streak: Cell::new(streak) });
    env.tasks.borrow_mut().push(t.clone());
    let f = TaskFut(t, env.clone());
    log(format!("spawn{id}"));
    let h = if chance(1, 3) {
        probe("mounted_task");
        let el = web_sys::window().unwrap().document().unwrap().create_element("main").unwrap();
        mount_at(f, el.into())
    } else {
        probe("spawned_task");
        get_executor().spawn(f)
    };
    env.handles.borrow_mut().push(Some(h));
}
fn any(env: &E) -> Option<usize> {
    let n = env.tasks.borrow().len();
    (n > 0).then(|| choose(n))
}
fn act(env: &E) {
    match weighted(&[5, 2, 2, 2, 2, 2, 1]) {
        0 => {
            if let Some(k) = any(env) {
                wake(env, k);
            }
        }
        1 => spawn(env),
        2 => {
            if let Some(k) = any(env) {
                let h = env.handles.borrow_mut()[k].take();
                if h.is_none() {
                    return;
                }
                fault("task_cancelled");
                let t = env.tasks.borrow()[k].clone();
                drop(h);
                // dropped by the executor at its next turn
                t.done.set(true);
                t.woken.set(false);
            }
        }
        3 => {
            // a timer that wakes a task
            if let Some(k) = any(env) {
                let e2 = env.clone();
                let c: Closure<dyn Fn()> = Closure::new(move || {
                    check!(e2.in_poll.get() == 0, "timer-in-poll", "timer ran inside a poll");
                    wake(&e2, k);
                });
                fault("timer_wake");
                web_sys::window().unwrap().set_timeout_with_callback_and_timeout_and_arguments_0(c.as_ref().unchecked_ref(), choose(3) as i32 * 10).unwrap();
                env.timers.borrow_mut().push(c);
            }
        }
        4 => {
            fault("nested_run_now");
            run_now();
        }
        5 => {
            let ev = sim::new_event("Event", "click", true, true);
            if env.in_poll.get() > 0 {
                fault("event_dispatched_in_poll");
                sim::dispatch(env.el.get(), &ev);
            } else {
                sim::user_dispatch(env.el.get(), &ev);
            }
        }
        _ => {
            if let Some(k) = any(env) {
                fault("task_detached");
                if let Some(h) = env.handles.borrow_mut()[k].take() {
                    h.detach();
                }
            }
        }
    }
}
fn check_idle(env: &E) {
    for t in env.tasks.borrow().iter() {
        if !t.done.get() {
            check!(!t.dropped.get(), "task-lost", "task {} was dropped while running", t.id);
            check!(!t.woken.get(), "lost-wake", "the browser is idle, task {} was woken (or spawned) and not polled", t.id);
        } else {
            check!(t.dropped.get(), "task-leak", "the browser is idle, finished or cancelled task {} was not dropped", t.id);
        }
    }
}
pub fn tasks() {
    let env: E = Rc::default();
    env.budget.set(60);
    let el = web_sys::window().unwrap().document().unwrap().create_element("b").unwrap();
    env.el.set(super::ui::dom_id(&el));
    let e2 = env.clone();
    let l = listener(Rc::new(move || {
        let nested = e2.in_poll.get() > 0;
        let k = any(&e2);
        if let Some(k) = k {
            wake(&e2, k);
        }
        run_now();
        if let (Some(k), false) = (k, nested) {
            let t = e2.tasks.borrow()[k].clone();
            check!(t.done.get() || !t.woken.get(), "not-run-in-dispatch", "task {k} was woken from an event and not polled when its handling returned");
            probe("ran_inside_dispatch");
        }
    }));
    el.add_event_listener_with_callback("click", l.as_ref().unchecked_ref()).unwrap();
    let mounted = chance(1, 2);
    if mounted {
        mount(async {
            use async_ui_web::prelude_traits::*;
            "app".render().await;
        });
    } else {
        fault("no_app_mounted");
    }
    env.long.set(chance(1, 60));
    for _ in 0..1 + choose(3) {
        span(|| spawn(&env));
    }
    env.long.set(false);
    for _ in 0..2 + choose(16) {
        span(|| match weighted(&[6, 4, 2, 1]) {
            0 => act(&env),
            1 => {
                let t = sim::pending_timers();
                if !t.is_empty() {
                    sim::fire_timer(t[choose(t.len())].id);
                }
            }
            2 => {
                settle(400);
                check_idle(&env);
            }
            _ => {
                if chance(1, 8) {
                    fault("task_burst");
                    for _ in 0..150 + choose(150) {
                        spawn(&env);
                    }
                }
            }
        });
    }
    settle(2000);
    check_idle(&env);
    if mounted {
        let b = sim::with(|w| w.render(w.body));
        check!(b == "body[\"app\"]", "mount", "mounted app shows {b}");
    }
    let hs: Vec<_> = env.handles.borrow_mut().drain(..).collect();
    for (k, h) in hs.into_iter().enumerate() {
        if let Some(h) = h {
            drop(h);
            env.tasks.borrow()[k].done.set(true);
        }
    }
    settle(500);
    for t in env.tasks.borrow().iter() {
        if t.done.get() {
            check!(t.dropped.get(), "task-leak", "cancelled task {} was not dropped", t.id);
        }
    }
}
