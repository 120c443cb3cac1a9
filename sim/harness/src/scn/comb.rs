//! Combinators (join / race / try_join / race_ok over tuples, arrays, Vecs):
//! results and drops (C03), wake-ups (C04), waker lifetime (C05).
//!
//! A random tree of combinators over scripted leaf futures is driven by hand
//! through the public API: the scheduler decides which leaf becomes ready,
//! which waker clone is used (current, stale, by value, by reference,
//! duplicate, from inside another future's poll), when the root is polled and
//! with which waker, and when everything is dropped.
use crate::ctx::*;
use crate::wk::*;
use async_ui_web_core::combinators::{join, race, race_ok, try_join};
use async_ui_web_core::ContainerNodeFuture;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub type Res = Result<Val, Val>;
pub type BoxRes = Pin<Box<dyn Future<Output = Res>>>;

pub enum Val {
    Tok(Tok),
    List(Vec<Val>),
    Res(Box<Res>),
}
/// A value whose creation and drop are accounted for.
pub struct Tok {
    id: usize,
    _heap: Box<[usize; 8]>,
    env: Rc<Env>,
}
impl Drop for Tok {
    fn drop(&mut self) {
        let mut t = self.env.toks.borrow_mut();
        if t[self.id] != 1 {
            drop(t);
            violate("double-drop", format!("value {} dropped twice", self.id));
        }
        t[self.id] = 2;
    }
}
fn digest(v: &Val) -> String {
    match v {
        Val::Tok(t) => format!("t{}", t.id),
        Val::List(l) => format!("[{}]", l.iter().map(digest).collect::<Vec<_>>().join(",")),
        Val::Res(r) => digest_res(r),
    }
}
fn digest_res(r: &Res) -> String {
    match r {
        Ok(v) => format!("ok({})", digest(v)),
        Err(v) => format!("err({})", digest(v)),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Join,
    Race,
    TryJoin,
    RaceOk,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Tuple,
    Array,
    Vec,
}

#[derive(Default)]
pub struct Env {
    /// 1 = live, 2 = dropped
    toks: RefCell<Vec<u8>>,
    nodes: RefCell<Vec<Node>>,
    /// Global event counter.
    seq: Cell<u64>,
    poll_no: Cell<u64>,
    poll_start: Cell<u64>,
    prev_poll_start: Cell<u64>,
    stack: RefCell<Vec<usize>>,
    in_poll: Cell<bool>,
    selective: Cell<bool>,
}
pub struct Node {
    parent: Option<usize>,
    index: usize,
    comb: Option<(Kind, Form)>,
    kids: Vec<usize>,
    outcome: Option<(bool, String)>,
    dropped: bool,
    polls: u64,
    last_poll: u64,
    last_wake: u64,
    leaf: Option<Rc<Leaf>>,
}
pub struct Leaf {
    id: usize,
    ready: Cell<Option<bool>>,
    wakers: RefCell<Vec<Waker>>,
    keep: usize,
    acts: RefCell<Vec<Act>>,
}
#[derive(Clone, Copy)]
enum Act {
    WakeSelf,
    WakeOther(usize),
    ReadyOther(usize, bool),
    DropWakers,
}
impl Env {
    fn tick(&self) -> u64 {
        self.seq.set(self.seq.get() + 1);
        self.seq.get()
    }
    fn new_tok(self: &Rc<Self>) -> Tok {
        let mut t = self.toks.borrow_mut();
        t.push(1);
        Tok { id: t.len() - 1, _heap: Box::new([t.len(); 8]), env: self.clone() }
    }
    /// Not completed, not dropped, and no enclosing combinator completed.
    fn pending(&self, mut id: usize) -> bool {
        let n = self.nodes.borrow();
        loop {
            if n[id].dropped || n[id].outcome.is_some() {
                return false;
            }
            match n[id].parent {
                Some(p) => id = p,
                None => return true,
            }
        }
    }
}

/// Wraps every node of the tree; the oracle's eyes.
struct Probe {
    id: usize,
    env: Rc<Env>,
    inner: BoxRes,
}
impl Future for Probe {
    type Output = Res;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        step();
        let env = self.env.clone();
        let id = self.id;
        let now = env.tick();
        log(format!("p{id}"));
        {
            let mut ns = env.nodes.borrow_mut();
            let n = &ns[id];
            check!(!n.dropped, "poll-after-drop", "node {id} polled after it was dropped");
            check!(n.outcome.is_none(), "poll-after-complete", "node {id} polled after it completed");
            check!(env.in_poll.get(), "poll-outside", "node {id} polled while the root is not being polled");
            let up = env.stack.borrow().last().copied();
            check!(up == n.parent, "poll-parent", "node {id} polled by {up:?} but belongs to {:?}", n.parent);
            if let Some(p) = n.parent {
                // Once the combinator has its result no other child may be polled.
                let kids = &ns[p].kids;
                let (k, _) = ns[p].comb.unwrap();
                let decided = kids.iter().any(|c| match (&ns[*c].outcome, k) {
                    (Some(_), Kind::Race) => true,
                    (Some((ok, _)), Kind::TryJoin) => !*ok,
                    (Some((ok, _)), Kind::RaceOk) => *ok,
                    _ => false,
                });
                check!(!decided, "poll-after-decided", "node {id} polled although its {k:?} already has its result");
            }
            if env.selective.get() && n.polls > 0 && n.leaf.is_some() {
                check!(
                    n.last_wake >= env.prev_poll_start.get(),
                    "polled-without-wake",
                    "leaf {id} polled again although nobody woke it since its last poll"
                );
            }
            let n = &mut ns[id];
            n.polls += 1;
            n.last_poll = now;
        }
        env.stack.borrow_mut().push(id);
        let r = self.inner.as_mut().poll(cx);
        env.stack.borrow_mut().pop();
        // Result oracle for combinators.
        let (comb, kids) = {
            let ns = env.nodes.borrow();
            (ns[id].comb, ns[id].kids.clone())
        };
        if let Some((k, form)) = comb {
            let ns = env.nodes.borrow();
            let outs: Vec<Option<(bool, String)>> = kids.iter().map(|c| ns[*c].outcome.clone()).collect();
            let all = outs.iter().all(|o| o.is_some());
            let show = |b: bool, s: &str| if b { format!("ok({s})") } else { format!("err({s})") };
            let list = |_: bool| outs.iter().map(|o| o.as_ref().unwrap().1.clone()).collect::<Vec<_>>().join(",");
            let want: Option<String> = match k {
                Kind::Join => all.then(|| {
                    show(true, &format!("[{}]", outs.iter().map(|o| { let o = o.as_ref().unwrap(); show(o.0, &o.1) }).collect::<Vec<_>>().join(",")))
                }),
                Kind::Race => outs.iter().flatten().next().map(|o| show(o.0, &o.1)),
                Kind::TryJoin => match outs.iter().flatten().find(|o| !o.0) {
                    Some(e) => Some(show(false, &e.1)),
                    None => all.then(|| show(true, &format!("[{}]", list(true)))),
                },
                Kind::RaceOk => match outs.iter().flatten().find(|o| o.0) {
                    Some(e) => Some(show(true, &e.1)),
                    None => all.then(|| show(false, &format!("[{}]", list(false)))),
                },
            };
            let got = match &r {
                Poll::Ready(v) => Some(digest_res(v)),
                Poll::Pending => None,
            };
            check!(
                want == got,
                "wrong-result",
                "{k:?} over {form:?} of {} futures (node {id}): children finished as {outs:?}, expected {want:?}, got {got:?}",
                kids.len()
            );
        }
        if let Poll::Ready(v) = &r {
            let d = match v {
                Ok(x) => (true, digest(x)),
                Err(x) => (false, digest(x)),
            };
            log(format!("d{id}{}", d.1));
            probe("completions");
            env.nodes.borrow_mut()[id].outcome = Some(d);
        }
        r
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        let mut ns = self.env.nodes.borrow_mut();
        check!(!ns[self.id].dropped, "double-drop", "future {} dropped twice", self.id);
        ns[self.id].dropped = true;
    }
}

struct LeafFut {
    st: Rc<Leaf>,
    env: Rc<Env>,
    _heap: Box<[u64; 8]>,
}
impl Future for LeafFut {
    type Output = Res;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        let st = &self.st;
        {
            let mut w = st.wakers.borrow_mut();
            if w.len() >= st.keep.max(1) {
                w.remove(0);
            }
            w.push(cx.waker().clone());
        }
        let acts = std::mem::take(&mut *st.acts.borrow_mut());
        for a in acts {
            match a {
                Act::WakeSelf => {
                    fault("wake_self_in_poll");
                    wake_leaf(&self.env, st, false);
                }
                Act::WakeOther(o) => {
                    fault("wake_sibling_in_poll");
                    let l = self.env.nodes.borrow()[o].leaf.clone().unwrap();
                    wake_leaf(&self.env, &l, false);
                }
                Act::ReadyOther(o, ok) => {
                    fault("ready_sibling_in_poll");
                    let l = self.env.nodes.borrow()[o].leaf.clone().unwrap();
                    if l.ready.get().is_none() {
                        l.ready.set(Some(ok));
                    }
                    wake_leaf(&self.env, &l, false);
                }
                Act::DropWakers => {
                    fault("drop_wakers_in_poll");
                    let ws = std::mem::take(&mut *st.wakers.borrow_mut());
                    drop(ws);
                    st.wakers.borrow_mut().push(cx.waker().clone());
                }
            }
        }
        match st.ready.get() {
            Some(ok) => {
                let v = Val::Tok(self.env.new_tok());
                Poll::Ready(if ok { Ok(v) } else { Err(v) })
            }
            None => Poll::Pending,
        }
    }
}

/// Wake a leaf through one of the wakers it was given (any of them).
fn wake_leaf(env: &Rc<Env>, l: &Rc<Leaf>, by_value_ok: bool) {
    let n = l.wakers.borrow().len();
    if n == 0 {
        return;
    }
    let i = if n > 1 { choose(n) } else { 0 };
    if i + 1 < n {
        fault("stale_waker_used");
    }
    let t = env.tick();
    env.nodes.borrow_mut()[l.id].last_wake = t;
    let mode = choose(if by_value_ok { 4 } else { 2 });
    log(format!("w{}.{mode}", l.id));
    match mode {
        0 => {
            let w = l.wakers.borrow()[i].clone();
            w.wake_by_ref();
        }
        1 => {
            let w = l.wakers.borrow()[i].clone();
            w.wake();
        }
        2 => {
            // consume the stored waker itself
            let w = l.wakers.borrow_mut().remove(i);
            w.wake();
        }
        _ => {
            fault("duplicate_wake");
            let w = l.wakers.borrow()[i].clone();
            w.wake_by_ref();
            w.clone().wake();
            w.wake_by_ref();
        }
    }
}

struct MapF<F: Future, T> {
    inner: Pin<Box<F>>,
    f: fn(F::Output) -> T,
}
impl<F: Future, T> Future for MapF<F, T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let r = self.inner.as_mut().poll(cx);
        match r {
            Poll::Ready(v) => Poll::Ready((self.f)(v)),
            Poll::Pending => Poll::Pending,
        }
    }
}
fn map<F: Future + 'static>(inner: F, f: fn(F::Output) -> Res) -> BoxRes {
    Box::pin(MapF { inner: Box::pin(inner), f })
}
fn rs(v: Vec<Res>) -> Res {
    Ok(Val::List(v.into_iter().map(|r| Val::Res(Box::new(r))).collect()))
}
macro_rules! tuple_case {
    ($kind:expr, $it:ident, $($v:ident)+) => {{
        $(let $v = $it.next().unwrap();)+
        match $kind {
            Kind::Join => map(join(($($v,)+)), |($($v,)+)| rs(vec![$($v),+])),
            Kind::Race => map(race(($($v,)+)), |r| r),
            Kind::TryJoin => map(try_join(($($v,)+)), |r| r.map(|($($v,)+)| Val::List(vec![$($v),+]))),
            Kind::RaceOk => map(race_ok(($($v,)+)), |r| r.map_err(|($($v,)+)| Val::List(vec![$($v),+]))),
        }
    }};
}
macro_rules! tuple12_case {
    ($kind:expr, $it:ident, $($v:ident)+) => {{
        $(let $v = $it.next().unwrap();)+
        match $kind {
            Kind::Join => map(join(($($v,)+)), |($($v,)+)| rs(vec![$($v),+])),
            _ => map(race(($($v,)+)), |r| r),
        }
    }};
}
macro_rules! array_case {
    ($kind:expr, $kids:ident, $n:literal) => {{
        let a: [BoxRes; $n] = match $kids.try_into() {
            Ok(a) => a,
            Err(_) => unreachable!(),
        };
        match $kind {
            Kind::Join => map(join(a), |v| rs(v.into_iter().collect())),
            Kind::Race => map(race(a), |r| r),
            Kind::TryJoin => map(try_join(a), |r| r.map(|v| Val::List(v.into_iter().collect()))),
            Kind::RaceOk => map(race_ok(a), |r: Result<Val, [Val; $n]>| r.map_err(|v| Val::List(v.into_iter().collect()))),
        }
    }};
}
pub const ARRAY_SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 8, 16, 33, 64, 65, 130, 256, 260];
pub fn combine(kind: Kind, form: Form, kids: Vec<BoxRes>) -> BoxRes {
    match form {
        Form::Vec => match kind {
            Kind::Join => map(join(kids), rs),
            Kind::Race => map(race(kids), |r| r),
            Kind::TryJoin => map(try_join(kids), |r| r.map(Val::List)),
            Kind::RaceOk => map(race_ok(kids), |r| r.map_err(Val::List)),
        },
        Form::Array => match kids.len() {
            0 => array_case!(kind, kids, 0),
            1 => array_case!(kind, kids, 1),
            2 => array_case!(kind, kids, 2),
            3 => array_case!(kind, kids, 3),
            4 => array_case!(kind, kids, 4),
            5 => array_case!(kind, kids, 5),
            8 => array_case!(kind, kids, 8),
            16 => array_case!(kind, kids, 16),
            33 => array_case!(kind, kids, 33),
            64 => array_case!(kind, kids, 64),
            65 => array_case!(kind, kids, 65),
            130 => array_case!(kind, kids, 130),
            256 => array_case!(kind, kids, 256),
            260 => array_case!(kind, kids, 260),
            n => panic!("SIM-no array case for {n}"),
        },
        Form::Tuple => {
            let n = kids.len();
            let mut it = kids.into_iter();
            match n {
                0 => map(join(()), |_| rs(vec![])),
                1 => tuple_case!(kind, it, a),
                2 => tuple_case!(kind, it, a b),
                3 => tuple_case!(kind, it, a b c),
                4 => tuple_case!(kind, it, a b c d),
                5 => tuple_case!(kind, it, a b c d e),
                6 => tuple_case!(kind, it, a b c d e f),
                7 => tuple_case!(kind, it, a b c d e f g),
                8 => tuple_case!(kind, it, a b c d e f g h),
                9 => tuple_case!(kind, it, a b c d e f g h i),
                10 => tuple_case!(kind, it, a b c d e f g h i j),
                11 => tuple_case!(kind, it, a b c d e f g h i j k),
                12 => tuple12_case!(kind, it, a b c d e f g h i j k l),
                n => panic!("SIM-no tuple case for {n}"),
            }
        }
    }
}
/// Pick a combinator kind, form and arity.
pub fn pick_comb(big: bool, max: usize) -> (Kind, Form, usize) {
    let kind = [Kind::Join, Kind::Race, Kind::TryJoin, Kind::RaceOk][choose(4)];
    let form = [Form::Vec, Form::Tuple, Form::Array][choose(3)];
    let n = match form {
        Form::Vec if big => [70, 64, 65, 129, 200, 255, 256, 257, 300, 520, 1025, 2050][choose(12)],
        Form::Array if big => [16, 33, 64, 65, 130, 256, 260][choose(7)],
        Form::Vec => choose(max + 2),
        Form::Array => {
            let c: Vec<usize> = ARRAY_SIZES.iter().copied().filter(|x| *x <= max.max(3)).collect();
            c[choose(c.len())]
        }
        Form::Tuple => {
            let m = match kind {
                Kind::Join => 12,
                Kind::Race => 12,
                _ => 11,
            };
            let n = if big { 1 + choose(m) } else { 1 + choose(max.min(m)) };
            if kind == Kind::Join && chance(1, 30) {
                0
            } else {
                n
            }
        }
    };
    (kind, form, n)
}


fn build(env: &Rc<Env>, parent: Option<usize>, index: usize, depth: usize, big: bool, budget: &mut usize, max: usize) -> BoxRes {
    let id = {
        let mut ns = env.nodes.borrow_mut();
        ns.push(Node {
            parent,
            index,
            comb: None,
            kids: vec![],
            outcome: None,
            dropped: false,
            polls: 0,
            last_poll: 0,
            last_wake: 0,
            leaf: None,
        });
        let id = ns.len() - 1;
        if let Some(p) = parent {
            ns[p].kids.push(id);
        }
        id
    };
    let is_comb = parent.is_none() || (depth > 0 && *budget > 0 && chance(1, 4));
    let inner: BoxRes = if is_comb {
        let (kind, form, n) = pick_comb(big, max);
        probe(match (kind, form) {
            (Kind::Join, Form::Vec) => "join_vec",
            (Kind::Join, Form::Array) => "join_array",
            (Kind::Join, Form::Tuple) => "join_tuple",
            (Kind::Race, Form::Vec) => "race_vec",
            (Kind::Race, Form::Array) => "race_array",
            (Kind::Race, Form::Tuple) => "race_tuple",
            (Kind::TryJoin, Form::Vec) => "try_join_vec",
            (Kind::TryJoin, Form::Array) => "try_join_array",
            (Kind::TryJoin, Form::Tuple) => "try_join_tuple",
            (Kind::RaceOk, Form::Vec) => "race_ok_vec",
            (Kind::RaceOk, Form::Array) => "race_ok_array",
            (Kind::RaceOk, Form::Tuple) => "race_ok_tuple",
        });
        env.nodes.borrow_mut()[id].comb = Some((kind, form));
        log(format!("comb{id}{kind:?}{form:?}{n}"));
        *budget = budget.saturating_sub(n);
        let kids: Vec<BoxRes> = (0..n)
            .map(|i| build(env, Some(id), i, if big { 0 } else { depth - 1 }, false, budget, max))
            .collect();
        combine(kind, form, kids)
    } else {
        let leaf = Rc::new(Leaf {
            id,
            ready: Cell::new(if chance(1, 10) { Some(choose(2) == 0) } else { None }),
            wakers: RefCell::new(vec![]),
            keep: 1 + choose(3),
            acts: RefCell::new(vec![]),
        });
        env.nodes.borrow_mut()[id].leaf = Some(leaf.clone());
        Box::pin(LeafFut { st: leaf, env: env.clone(), _heap: Box::new([id as u64; 8]) })
    };
    Box::pin(Probe { id, env: env.clone(), inner })
}

#[derive(Clone, Copy)]
struct Cfg {
    max_steps: usize,
    w_ready: usize,
    w_wake: usize,
    w_poll: usize,
    w_spurious_poll: usize,
    w_act: usize,
    w_dropwakers: usize,
    w_cancel: usize,
    drain: bool,
}
fn drive(cfg: Cfg) {
    let env = Rc::new(Env::default());
    let node = web_sys::window().unwrap().document().unwrap().create_element("div").unwrap();
    let big = chance(1, 8);
    let depth = 1 + choose(3);
    let max = 2 + choose(5);
    let mut budget = 24;
    let selective = !chance(1, 4);
    let fut = span(|| build(&env, None, 0, depth, big, &mut budget, max));
    let leaves: Vec<usize> = env.nodes.borrow().iter().enumerate().filter(|(_, n)| n.leaf.is_some()).map(|(i, _)| i).collect();
    // `ContainerNodeFuture::new_root` provides the rendering context the
    // combinators require.
    let mut root = Some(Box::pin(ContainerNodeFuture::new_root(fut, node.into())));
    // The tasks polling the root: reference counted wakers, wakers without data, or one of each.
    let roots: Vec<Arc<CountWaker>> = match choose(4) {
        0 => vec![null_waker(0), null_waker(1)],
        1 => vec![count_waker(), null_waker(0)],
        _ => vec![count_waker(), count_waker()],
    };
    let mut cur = 0usize;
    let mut woken = true; // initial poll
    let mut done = false;
    env.selective.set(selective);
    let spur = if selective { 0 } else { cfg.w_spurious_poll };
    let poll_root = |root: &mut Option<Pin<Box<ContainerNodeFuture<BoxRes>>>>, cur: &mut usize, done: &mut bool| {
        if chance(1, 4) {
            *cur = 1 - *cur;
            fault("root_waker_changed");
        }
        for r in &roots {
            r.reset();
        }
        let due: Vec<usize> = {
            let ns = env.nodes.borrow();
            leaves.iter().copied().filter(|l| ns[*l].last_wake > ns[*l].last_poll || ns[*l].polls == 0).collect()
        };
        let due: Vec<usize> = due.into_iter().filter(|l| env.pending(*l)).collect();
        let t = env.tick();
        env.poll_no.set(env.poll_no.get() + 1);
        env.prev_poll_start.set(env.poll_start.get());
        env.poll_start.set(t);
        env.in_poll.set(true);
        log(format!("poll{}", *cur));
        let w = roots[*cur].waker();
        let r = root.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w));
        env.in_poll.set(false);
        if let Poll::Ready(v) = r {
            *done = true;
            drop(v);
        } else {
            for l in due {
                if env.pending(l) {
                    let n = &env.nodes.borrow()[l];
                    check!(n.last_poll > t, "lost-wake", "leaf {l} was woken (or never polled) but the next poll of the root did not poll it");
                }
            }
        }
    };
    let lost = |cur: usize, root_live: bool| {
        if !root_live {
            return;
        }
        let ns = env.nodes.borrow();
        for l in &leaves {
            let n = &ns[*l];
            if n.polls > 0 && n.last_wake > n.last_poll && env.pending(*l) {
                check!(
                    roots[cur].n() > 0,
                    "lost-wake",
                    "leaf {l} was woken after its last poll, but the waker given to the root's last poll was not woken"
                );
            }
        }
    };
    let steps = 4 + choose(cfg.max_steps);
    let mut cancelled = false;
    for _ in 0..steps {
        if done {
            break;
        }
        let stop = span(|| {
            woken = woken || roots.iter().any(|r| r.n() > 0);
            let wp = if woken { cfg.w_poll } else { spur };
            let op = weighted(&[wp + usize::from(wp == 0 && leaves.is_empty()), cfg.w_ready, cfg.w_wake, cfg.w_act, cfg.w_dropwakers, cfg.w_cancel]);
            let pick = || leaves[choose(leaves.len())];
            match op {
                0 => {
                    if !woken {
                        fault("spurious_root_poll");
                    }
                    woken = false;
                    poll_root(&mut root, &mut cur, &mut done);
                }
                _ if leaves.is_empty() => {}
                1 => {
                    let l = env.nodes.borrow()[pick()].leaf.clone().unwrap();
                    let ok = choose(2) == 0;
                    if l.ready.get().is_none() {
                        l.ready.set(Some(ok));
                        probe("leaf_ready");
                    }
                    wake_leaf(&env, &l, true);
                }
                2 => {
                    fault("spurious_wake");
                    let l = env.nodes.borrow()[pick()].leaf.clone().unwrap();
                    wake_leaf(&env, &l, true);
                }
                3 => {
                    let l = env.nodes.borrow()[pick()].leaf.clone().unwrap();
                    let a = match choose(4) {
                        0 => Act::WakeSelf,
                        1 => Act::WakeOther(pick()),
                        2 => Act::ReadyOther(pick(), choose(2) == 0),
                        _ => Act::DropWakers,
                    };
                    l.acts.borrow_mut().push(a);
                    wake_leaf(&env, &l, true);
                }
                4 => {
                    fault("wakers_dropped");
                    let l = env.nodes.borrow()[pick()].leaf.clone().unwrap();
                    l.wakers.borrow_mut().clear();
                }
                _ => {
                    fault("cancel_mid_flight");
                    return true;
                }
            }
            lost(cur, !done);
            false
        });
        if stop {
            cancelled = true;
            break;
        }
    }
    if cfg.drain && !done && !cancelled {
        // Faults stop: make every leaf ready; the tree must finish.
        for l in &leaves {
            let l = env.nodes.borrow()[*l].leaf.clone().unwrap();
            if l.ready.get().is_none() {
                l.ready.set(Some(choose(2) == 0));
            }
            if l.wakers.borrow().is_empty() {
                // its wakers were dropped: only a whole-tree poll can reach it,
                // which selective polling does not promise.
                l.ready.set(None);
            }
            wake_leaf(&env, &l, false);
        }
        let mut n = 0;
        while !done {
            let w = woken || roots.iter().any(|r| r.n() > 0);
            if !w {
                break;
            }
            woken = false;
            poll_root(&mut root, &mut cur, &mut done);
            lost(cur, !done);
            n += 1;
            check!(n < 500, "livelock", "root keeps being woken");
        }
    }
    log(format!("end{done}{cancelled}"));
    if done {
        probe("completed");
    }
    // Teardown: everything is dropped exactly once, every waker stays usable.
    let late = chance(1, 2);
    if !late {
        for l in &leaves {
            env.nodes.borrow()[*l].leaf.as_ref().unwrap().wakers.borrow_mut().clear();
        }
    }
    drop(root.take());
    {
        let ns = env.nodes.borrow();
        for (i, n) in ns.iter().enumerate() {
            check!(n.dropped, "leak", "future {i} (child {}) not dropped with its combinator", n.index);
        }
        let t = env.toks.borrow();
        for (i, s) in t.iter().enumerate() {
            check!(*s == 2, "value-leak", "value {i} never dropped");
        }
    }
    if late {
        for l in &leaves {
            let l = env.nodes.borrow()[*l].leaf.clone().unwrap();
            loop {
                let w = l.wakers.borrow_mut().pop();
                let Some(w) = w else { break };
                fault("wake_after_drop");
                match choose(3) {
                    0 => w.wake(),
                    1 => {
                        let c = w.clone();
                        w.wake_by_ref();
                        drop(w);
                        c.wake();
                    }
                    _ => drop(w),
                }
            }
        }
    }
    for r in &roots {
        check!(
            Arc::strong_count(r) == 1,
            "waker-leak",
            "the root waker is still referenced {} times after every future and waker is gone",
            Arc::strong_count(r) - 1
        );
    }
    crate::alloc::verify_quarantine();
}

pub fn results() {
    drive(Cfg { max_steps: 30, w_ready: 6, w_wake: 1, w_poll: 6, w_spurious_poll: 2, w_act: 2, w_dropwakers: 0, w_cancel: 1 - 0, drain: true });
}
pub fn wakes() {
    drive(Cfg { max_steps: 60, w_ready: 1, w_wake: 8, w_poll: 8, w_spurious_poll: 2, w_act: 6, w_dropwakers: 0, w_cancel: 0, drain: true });
}
pub fn wakers() {
    drive(Cfg { max_steps: 30, w_ready: 2, w_wake: 6, w_poll: 6, w_spurious_poll: 1, w_act: 3, w_dropwakers: 3, w_cancel: 2, drain: false });
}
