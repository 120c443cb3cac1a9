//! UI future adapters (C20: meanwhile, pend_after) and select! (C21).
//!
//! A random program of adapters over scripted leaves runs as the child of a
//! root node; an interpreter of the same program predicts, for every poll of
//! the root, which leaves are alive, what is on screen and the result.
use crate::ctx::*;
use async_ui_web::prelude_traits::*;
use async_ui_web::{join, race, select};
use async_ui_web_core::window::DOCUMENT;
use async_ui_web_core::ContainerNodeFuture;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use wasm_bindgen::sim;
use wasm_bindgen::JsValue;

type F = Pin<Box<dyn Future<Output = u64>>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Unpolled,
    Live,
    Done,
    Dropped,
}
#[derive(Default)]
struct Env {
    leaves: RefCell<Vec<Rc<Leaf>>>,
    /// Wrapper probes: dropped flag of every program future built so far.
    wraps: RefCell<Vec<bool>>,
    /// Branches taken so far by every select. When several branches are
    /// ready at once any of them may win.
    wins: RefCell<Vec<Vec<usize>>>,
    /// Selects the interpreter saw a ready branch of, but no winner.
    undecided: RefCell<Vec<usize>>,
}
impl Env {
    fn new_select(&self) -> usize {
        self.wins.borrow_mut().push(vec![]);
        self.wins.borrow().len() - 1
    }
    fn win(&self, id: usize, i: usize) {
        self.wins.borrow_mut()[id].push(i);
    }
}
struct Leaf {
    id: usize,
    open: Cell<bool>,
    st: Cell<St>,
    shows: bool,
    waker: RefCell<Option<Waker>>,
    polls: Cell<u32>,
    woken: Cell<bool>,
}
struct LeafFut(Rc<Leaf>);
impl Future for LeafFut {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        step();
        let l = &self.0;
        match l.st.get() {
            St::Done => violate("poll-after-complete", format!("leaf {} polled after it completed", l.id)),
            St::Dropped => violate("poll-after-drop", format!("leaf {} polled after it was dropped", l.id)),
            _ => {}
        }
        l.polls.set(l.polls.get() + 1);
        l.woken.set(false);
        if l.open.get() {
            l.st.set(St::Done);
            *l.waker.borrow_mut() = None;
            return Poll::Ready(l.id as u64 * 10 + 3);
        }
        l.st.set(St::Live);
        *l.waker.borrow_mut() = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl Drop for LeafFut {
    fn drop(&mut self) {
        let l = &self.0;
        if l.st.get() == St::Dropped {
            violate("double-drop", format!("leaf {} dropped twice", l.id));
        }
        l.st.set(St::Dropped);
        *l.waker.borrow_mut() = None;
    }
}
/// Counts the drops of every program future.
#[pin_project::pin_project(PinnedDrop)]
struct Wrap {
    #[pin]
    f: Option<F>,
    id: usize,
    env: Rc<Env>,
    keep: bool,
    done: bool,
}
impl Future for Wrap {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let mut t = self.project();
        check!(!*t.done, "poll-after-complete", "future {} polled after it completed", t.id);
        let r = t.f.as_mut().as_pin_mut().unwrap().poll(cx);
        *t.done = r.is_ready();
        if r.is_ready() && !*t.keep {
            t.f.set(None);
        }
        r
    }
}
#[pin_project::pinned_drop]
impl PinnedDrop for Wrap {
    fn drop(self: Pin<&mut Self>) {
        let d = std::mem::replace(&mut self.env.wraps.borrow_mut()[self.id], true);
        check!(!d, "double-drop", "future {} dropped twice", self.id);
    }
}

struct Then(Rc<Env>, usize, Vec<Option<F>>);
/// Specification and run state of a program, as the interpreter sees it.
#[derive(Debug)]
enum M {
    Leaf(usize),
    Pend(Box<M>, bool),
    Mean(Box<M>, Box<M>, bool),
    Join(Vec<(M, Option<u64>)>),
    Sel { id: usize, brs: Vec<M>, then: Vec<Option<M>>, shape: usize, won: Option<(usize, u64)> },
    /// loop { select! { a => break, tick => continue } }
    Loop { id: usize, a: Box<M>, ticks: Vec<M>, at: usize, acc: u64 },
    Elem(Box<M>, bool),
}
fn fin(i: usize, x: u64) -> u64 {
    x.wrapping_mul(31).wrapping_add(i as u64 + 1) % 1_000_003
}

fn leaf(env: &Rc<Env>, shows: bool) -> (M, F) {
    let id = env.leaves.borrow().len();
    let l = Rc::new(Leaf { id, open: Cell::new(chance(1, 10)), st: Cell::new(St::Unpolled), shows, waker: RefCell::default(), polls: Cell::new(0), woken: Cell::new(false) });
    env.leaves.borrow_mut().push(l.clone());
    let f: F = if shows {
        let t = DOCUMENT.with(|d| d.create_text_node(&format!("n{id} ")));
        Box::pin(ContainerNodeFuture::new(LeafFut(l), t.into()))
    } else {
        Box::pin(LeafFut(l))
    };
    (M::Leaf(id), f)
}
fn wrap(env: &Rc<Env>, f: F) -> F {
    let id = env.wraps.borrow().len();
    env.wraps.borrow_mut().push(false);
    // Some futures hold on to what they hold after they completed.
    Box::pin(Wrap { f: Some(f), id, env: env.clone(), done: false, keep: chance(1, 3) })
}
async fn finish(i: usize, x: u64, then: &mut Then) -> u64 {
    let Then(env, id, then) = then;
    env.win(*id, i);
    let r = fin(i, x);
    match then[i].take() {
        Some(f) => fin(100, f.await ^ r),
        None => r,
    }
}
fn gen(env: &Rc<Env>, depth: usize, w_sel: usize, show: bool) -> (M, F) {
    let shows = show && chance(3, 4);
    if depth == 0 {
        return leaf(env, shows);
    }
    let (m, f): (M, F) = match weighted(&[2, 3, 3, 1, w_sel, 1, 1]) {
        0 => leaf(env, shows),
        1 => {
            let (m, f) = gen(env, depth - 1, w_sel, show);
            (M::Pend(Box::new(m), false), Box::pin(f.pend_after::<u64>()))
        }
        2 => {
            let (a, fa) = gen(env, depth - 1, w_sel, show);
            let (b, fb) = gen(env, depth - 1, w_sel, show);
            (M::Mean(Box::new(a), Box::new(b), false), Box::pin(fa.meanwhile(fb)))
        }
        3 => {
            let (a, fa) = gen(env, depth - 1, w_sel, show);
            let (b, fb) = gen(env, depth - 1, w_sel, show);
            (M::Join(vec![(a, None), (b, None)]), Box::pin(async move {
                let (a, b) = join((async move { fa.await }, async move { fb.await })).await;
                fin(a as usize % 7, b)
            }))
        }
        4 => select_expr(env, depth, w_sel, show),
        5 => {
            // The future that outlives each select must not be a UI node.
            let (a, mut fa) = leaf(env, false);
            let n = range(1, 3);
            let mut ticks = vec![];
            let mut fts = vec![];
            for _ in 0..n {
                let (t, ft) = gen(env, depth - 1, w_sel, show);
                ticks.push(t);
                fts.push(ft);
            }
            fts.reverse();
            let id = env.new_select();
            let e = env.clone();
            let f = async move {
                let mut acc = 0u64;
                loop {
                    match fts.pop() {
                        Some(t) => select! {
                            x = (&mut fa) => {
                                e.win(id, 0);
                                break fin(1, acc ^ x);
                            }
                            y = t => {
                                e.win(id, 1);
                                acc = fin(2, acc ^ y);
                                continue;
                            },
                        },
                        None => return fin(3, acc ^ (&mut fa).await),
                    }
                }
            };
            (M::Loop { id, a: Box::new(a), ticks, at: 0, acc: 0 }, Box::pin(f))
        }
        _ => {
            let (a, fa) = gen(env, depth - 1, w_sel, show);
            if show {
                let e = async_ui_web::html::Div::new();
                (M::Elem(Box::new(a), false), Box::pin(async move { e.render(fa).await }))
            } else {
                (a, fa)
            }
        }
    };
    let f = wrap(env, f);
    (m, f)
}
fn select_expr(env: &Rc<Env>, depth: usize, w_sel: usize, show: bool) -> (M, F) {
    let shape = choose(7);
    let n = [1, 2, 2, 3, 3, 4, 5][shape];
    let mut brs = vec![];
    let mut fs = vec![];
    let mut then = vec![];
    let id = env.new_select();
    let mut thens = Then(env.clone(), id, vec![]);
    for i in 0..n {
        let (m, f) = gen(env, if i < 2 { depth - 1 } else { 0 }, w_sel, show);
        brs.push(m);
        fs.push(f);
        if chance(1, 3) {
            let (m, f) = gen(env, depth - 1, w_sel, show);
            then.push(Some(m));
            thens.2.push(Some(f));
        } else {
            then.push(None);
            thens.2.push(None);
        }
    }
    let mut it = fs.into_iter();
    let mut nf = move || it.next().unwrap();
    let f: F = match shape {
        0 => {
            let a = nf();
            Box::pin(async move {
                select! { x = a => finish(0, x, &mut thens).await }
            })
        }
        1 => {
            let (a, b) = (nf(), nf());
            Box::pin(async move {
                select! {
                    x = a => finish(0, x, &mut thens).await,
                    y = b => finish(1, y, &mut thens).await,
                }
            })
        }
        2 => {
            // Two futures with different output types, patterns, no last comma.
            let (a, b) = (nf(), nf());
            Box::pin(async move {
                let a = async move { (a.await, "a") };
                let b = async move { [b.await] };
                select! {
                    (x, _) = a => { finish(0, x, &mut thens).await },
                    [y] = b => { finish(1, y, &mut thens).await }
                }
            })
        }
        3 => {
            let (a, b, c) = (nf(), nf(), nf());
            Box::pin(async move {
                let r = select! {
                    mut x = a => {
                        x = finish(0, x, &mut thens).await;
                        x
                    },
                    x = b => return finish(1, x, &mut thens).await,
                    x = async { c.await } => finish(2, x, &mut thens).await,
                };
                r
            })
        }
        4 => {
            let (a, b, c) = (nf(), nf(), nf());
            Box::pin(async move {
                let mut out = 0;
                select! {
                    x = a => out = finish(0, x, &mut thens).await,
                    x = b => { out = finish(1, x, &mut thens).await },
                    x = c => { out = finish(2, x, &mut thens).await },
                }
                out
            })
        }
        5 => {
            let (a, b, c, d) = (nf(), nf(), nf(), nf());
            Box::pin(async move {
                select! {
                    x = a => finish(0, x, &mut thens).await,
                    x = b => finish(1, x, &mut thens).await,
                    x = c => finish(2, x, &mut thens).await,
                    x = d => finish(3, x, &mut thens).await
                }
            })
        }
        _ => {
            let (a, b, c, d, e) = (nf(), nf(), nf(), nf(), nf());
            Box::pin(async move {
                let (i, x) = select! {
                    x = a => (0, x),
                    x = b => (1, x),
                    x = c => (2, x),
                    x = d => (3, x),
                    x = e => (4, x),
                };
                finish(i, x, &mut thens).await
            })
        }
    };
    (M::Sel { id, brs, then, shape, won: None }, f)
}

/// One poll of the program by the interpreter. `live` collects the leaves
/// alive after it, in document order, `html` what is on screen.
fn eval(m: &mut M, env: &Env, live: &mut Vec<usize>, html: &mut String) -> Option<u64> {
    let mark = (live.len(), html.len());
    let r = eval_inner(m, env, live, html);
    if r.is_some() {
        live.truncate(mark.0);
        html.truncate(mark.1);
    }
    r
}
fn eval_inner(m: &mut M, env: &Env, live: &mut Vec<usize>, html: &mut String) -> Option<u64> {
    match m {
        M::Leaf(id) => {
            let l = env.leaves.borrow()[*id].clone();
            if l.open.get() {
                return Some(*id as u64 * 10 + 3);
            }
            live.push(*id);
            if l.shows {
                html.push_str(&format!("\"n{id} \" "));
            }
            None
        }
        M::Pend(a, done) => {
            if !*done && eval(a, env, live, html).is_some() {
                *done = true;
            }
            None
        }
        M::Mean(a, b, done) => {
            if let Some(r) = eval(a, env, live, html) {
                return Some(r);
            }
            if !*done && eval(b, env, live, html).is_some() {
                *done = true;
            }
            None
        }
        M::Join(v) => {
            for (k, r) in v.iter_mut() {
                if r.is_none() {
                    *r = eval(k, env, live, html);
                }
            }
            if v.iter().all(|x| x.1.is_some()) {
                Some(fin(v[0].1.unwrap() as usize % 7, v[1].1.unwrap()))
            } else {
                None
            }
        }
        M::Sel { id, brs, then, won, shape } => {
            if won.is_none() {
                let mark = (live.len(), html.len(), env.undecided.borrow().len());
                let outs: Vec<Option<u64>> = brs.iter_mut().map(|b| eval(b, env, live, html)).collect();
                let taken = env.wins.borrow()[*id].first().copied();
                match taken {
                    None => {
                        if outs.iter().any(|o| o.is_some()) {
                            env.undecided.borrow_mut().push(*id);
                        }
                    }
                    Some(i) => {
                        let Some(x) = outs[i] else { violate("wrong-branch", format!("select {id} took branch {i}, which has not finished")) };
                        live.truncate(mark.0);
                        html.truncate(mark.1);
                        env.undecided.borrow_mut().truncate(mark.2);
                        *won = Some((i, fin(i, x)));
                        if outs.iter().flatten().count() > 1 {
                            probe("select with several branches ready at once");
                        }
                        probe(["select of 1 finished", "select of 2 finished", "select with patterns finished", "select with return finished", "select as statement finished", "select of 4 finished", "select of 5 finished"][*shape]);
                    }
                }
            }
            let (i, r) = (*won)?;
            match &mut then[i] {
                None => Some(r),
                Some(t) => eval(t, env, live, html).map(|x| fin(100, x ^ r)),
            }
        }
        M::Loop { id, a, ticks, at, acc } => loop {
            let mark = (live.len(), html.len(), env.undecided.borrow().len());
            let x = eval(a, env, live, html);
            if *at >= ticks.len() {
                return x.map(|x| fin(3, *acc ^ x));
            }
            let y = eval(&mut ticks[*at], env, live, html);
            let taken = env.wins.borrow()[*id].get(*at).copied();
            let Some(taken) = taken else {
                if x.is_some() || y.is_some() {
                    env.undecided.borrow_mut().push(*id);
                }
                return None;
            };
            let Some(r) = [x, y][taken] else { violate("wrong-branch", format!("select {id} took branch {taken}, which has not finished")) };
            live.truncate(mark.0);
            html.truncate(mark.1);
            env.undecided.borrow_mut().truncate(mark.2);
            if taken == 0 {
                return Some(fin(1, *acc ^ r));
            }
            probe("select loop continued");
            *acc = fin(2, *acc ^ r);
            *at += 1;
        },
        M::Elem(a, _) => {
            html.push_str("div[");
            let r = eval(a, env, live, html);
            html.push_str("] ");
            r
        }
    }
}

struct RootWaker(AtomicU64);
impl Wake for RootWaker {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
fn run(w_sel: usize) {
    let env: Rc<Env> = Rc::default();
    let depth = range(1, 3);
    let show = chance(3, 4);
    let (mut m, f) = loop {
        let x = gen(&env, depth, w_sel, show);
        let ok = if w_sel > 3 { true } else { !matches!(x.0, M::Leaf(_)) };
        if ok || env.leaves.borrow().len() > 30 {
            break x;
        }
    };
    // Leaves of rejected programs are dropped already.
    let node: web_sys::Node = DOCUMENT.with(|d| d.create_element("main")).unwrap().into();
    let dom = AsRef::<JsValue>::as_ref(&node).obj_id().unwrap();
    let before: web_sys::Node = DOCUMENT.with(|d| d.create_text_node("before ")).into();
    let mut root: Option<Pin<Box<dyn Future<Output = u64>>>> = Some(Box::pin(ContainerNodeFuture::new_root(
        race((
            async move {
                // A sibling ahead of the program, so that its place matters.
                ContainerNodeFuture::new(std::future::pending::<u64>(), before).await
            },
            f,
        )),
        node,
    )));
    let waker = Arc::new(RootWaker(AtomicU64::new(0)));
    let mut result: Option<u64> = None;
    let mut polled = false;
    let mut woken = false;
    let rejected: Vec<bool> = env.leaves.borrow().iter().map(|l| l.st.get() == St::Dropped).collect();
    log(format!("{m:?}"));
    let mut settle = |root: &mut Option<Pin<Box<dyn Future<Output = u64>>>>, m: &mut M, spurious: bool| {
        let mut n = 0;
        loop {
            let w = waker.0.swap(0, Ordering::SeqCst) > 0;
            if !(w || !polled || (spurious && n == 0)) {
                break;
            }
            n += 1;
            check!(n < 200, "livelock", "the program keeps waking itself");
            polled = true;
            let wk: Waker = waker.clone().into();
            let mut live = vec![];
            let mut html = String::new();
            let got = root.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&wk));
            let want = eval(m, &env, &mut live, &mut html);
            let u = env.undecided.borrow().clone();
            check!(u.is_empty(), "missed-branch", "selects {u:?} have a finished branch but did not take it");
            log(format!("poll -> {got:?} live {live:?}"));
            let got = match got {
                Poll::Ready(v) => Some(v),
                Poll::Pending => None,
            };
            check!(got == want, "wrong-result", "the program returned {got:?}, expected {want:?}");
            if let Some(v) = got {
                probe("program finished");
                return Some(v);
            }
            for l in env.leaves.borrow().iter() {
                if rejected[l.id] {
                    continue;
                }
                let alive = l.st.get() == St::Live;
                check!(alive == live.contains(&l.id), "wrong-liveness", "leaf {} is {:?}, it should {}be running", l.id, l.st.get(), if live.contains(&l.id) { "" } else { "not " });
            }
            let shown = sim::with(|w| w.render(dom));
            let want = format!("main[\"before \" {html}]");
            check!(norm(&shown) == norm(&want), "wrong-dom", "on screen: {shown}, expected: {want}");
        }
        None
    };
    for _ in 0..range(1, 16) {
        if result.is_some() {
            break;
        }
        let stop = span(|| {
            step();
            match weighted(&[8, 2, 1, 1]) {
                0 => {
                    // One or several leaves become ready before the next poll.
                    for _ in 0..range(1, 3) {
                        let ls: Vec<Rc<Leaf>> = env.leaves.borrow().iter().filter(|l| !l.open.get() && !matches!(l.st.get(), St::Dropped | St::Done)).cloned().collect();
                        if ls.is_empty() {
                            break;
                        }
                        let l = &ls[choose(ls.len())];
                        l.open.set(true);
                        log(format!("open {}", l.id));
                        fault("leaf becomes ready");
                        if let Some(w) = l.waker.borrow_mut().take() {
                            l.woken.set(true);
                            w.wake();
                        };
                    }
                }
                1 => {
                    let ls: Vec<Rc<Leaf>> = env.leaves.borrow().iter().filter(|l| l.waker.borrow().is_some()).cloned().collect();
                    if !ls.is_empty() {
                        fault("spurious wake");
                        ls[choose(ls.len())].waker.borrow().as_ref().unwrap().wake_by_ref();
                    }
                }
                2 => {
                    fault("spurious poll");
                    woken = true;
                }
                _ => {
                    if polled_once(&env) {
                        fault("cancelled");
                        return true;
                    }
                }
            }
            false
        });
        if stop {
            break;
        }
        result = settle(&mut root, &mut m, woken);
        woken = false;
    }
    drop(root);
    for l in env.leaves.borrow().iter() {
        check!(l.st.get() == St::Dropped, "leak", "leaf {} was never dropped", l.id);
    }
    for (i, d) in env.wraps.borrow().iter().enumerate() {
        check!(*d, "leak", "future {i} was never dropped");
    }
    check!(Arc::strong_count(&waker) == 1, "waker-leak", "the root's waker is still referenced");
}
fn polled_once(env: &Env) -> bool {
    env.leaves.borrow().iter().any(|l| l.polls.get() > 0)
}
fn norm(s: &str) -> String {
    s.split_whitespace().collect()
}
pub fn adapters() {
    run(1)
}
pub fn selects() {
    run(8)
}
