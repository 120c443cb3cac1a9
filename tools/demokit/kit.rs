//! Helpers of the demonstrations: a simulated browser and hand-made wakers.
#![allow(dead_code)]
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use wasm_bindgen::{sim, JsValue};

pub struct Count(AtomicU64);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
impl Count {
    pub fn new() -> Arc<Self> {
        Arc::new(Count(AtomicU64::new(0)))
    }
    pub fn n(&self) -> u64 {
        self.0.load(Ordering::SeqCst)
    }
}
pub fn waker(c: &Arc<Count>) -> Waker {
    c.clone().into()
}
pub fn poll<F: Future + ?Sized>(f: Pin<&mut F>, c: &Arc<Count>) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(&waker(c)))
}
pub fn poll_next<S: futures_core::Stream + ?Sized>(f: Pin<&mut S>, c: &Arc<Count>) -> Poll<Option<S::Item>> {
    f.poll_next(&mut Context::from_waker(&waker(c)))
}
/// A future opened from outside.
#[derive(Default)]
pub struct GateInner {
    open: bool,
    waker: Option<Waker>,
    pub polls: u32,
}
#[derive(Clone, Default)]
pub struct Gate(pub Rc<RefCell<GateInner>>);
impl Gate {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn open(&self) {
        let w = {
            let mut i = self.0.borrow_mut();
            i.open = true;
            i.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn polls(&self) -> u32 {
        self.0.borrow().polls
    }
}
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut i = self.0.borrow_mut();
        i.polls += 1;
        if i.open {
            return Poll::Ready(());
        }
        i.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
/// Counts its drops.
pub struct OnDrop<F: FnMut()>(pub F);
impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}
pub fn dom_id<T: AsRef<JsValue>>(x: &T) -> u32 {
    AsRef::<JsValue>::as_ref(x).obj_id().unwrap()
}
/// A fresh container element in the document.
pub fn container() -> web_sys::Node {
    let doc = web_sys::window().unwrap().document().unwrap();
    let main = doc.create_element("main").unwrap();
    doc.body().unwrap().append_child(&main).unwrap();
    main.into()
}
/// Lets the browser run until nothing is scheduled.
pub fn settle() {
    let mut n = 0;
    loop {
        sim::run_microtasks();
        let t = sim::pending_timers();
        if t.is_empty() {
            return;
        }
        sim::fire_timer(t[0].id);
        n += 1;
        assert!(n < 1000, "the executor keeps rescheduling itself");
    }
}
/// Sends a user event to a node.
pub fn event<T: AsRef<JsValue>>(target: &T, class: &str, ty: &str) -> bool {
    let ev = sim::new_event(class, ty, true, true);
    sim::user_dispatch(dom_id(target), &ev)
}
pub fn shown(n: &web_sys::Node) -> String {
    sim::with(|w| w.render(dom_id(n)))
}
