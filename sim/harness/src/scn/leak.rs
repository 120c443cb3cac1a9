//! Long-lived UIs (C23): the same history repeated over parts that stay
//! mounted; whatever it tore down must leave nothing behind.
use super::ui::settle;
use crate::alloc::program_bytes;
use crate::ctx::*;
use async_ui_web::components::{Dropdown, DynamicSlot};
use async_ui_web::event_traits::*;
use async_ui_web::executor::get_executor;
use async_ui_web::html::{Button, Div, Span};
use async_ui_web::lists::{DiffedList, DynamicList, ListModel, ModeledList, VirtualizedList};
use async_ui_web::prelude_traits::*;
use async_ui_web::{join, mount_at, race, race_ok, select, try_join, ReactiveCell};
use std::cell::{Cell, RefCell};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Poll, Waker};
use wasm_bindgen::sim;
use wasm_bindgen::JsCast;
use x_bow::{PathExt, Store, Trackable};

type Fut = Pin<Box<dyn Future<Output = ()>>>;
type Rend = Box<dyn Fn(&u32) -> Fut>;

#[derive(Trackable, Clone, Default)]
#[track(deep)]
struct Data {
    n: u32,
    v: Vec<u32>,
}

#[derive(Clone, Debug)]
enum Spec {
    Text,
    Gate(usize),
    Event(usize, bool),
    Cell(bool),
    Store(u8),
    Yield(u32),
    El(Vec<Spec>),
    Race(Vec<Spec>),
    Join(Vec<Spec>),
    JoinArr(Box<Spec>, usize),
    TryJoin(Vec<Spec>),
    RaceOk(Vec<Spec>),
    Meanwhile(Box<(Spec, Spec)>),
    Select(Box<(Spec, Spec)>),
    Spawn(Box<Spec>, bool),
    Slot(Box<(Spec, Spec)>),
    List(Vec<Spec>),
    Dropdown(u32),
    Virt(usize),
    /// Runs the inner one up to `n` times in a row.
    Again(Box<Spec>, u32),
}
#[derive(Clone, Debug)]
enum Op {
    Slot(usize, Option<Spec>),
    Insert(u32, Spec, u32),
    Remove(u32),
    Move(u32, u32),
    Swap(u32, u32),
    Retain(Vec<u32>),
    Hide,
    Show,
    Diff(Vec<u32>),
    Push(u32),
    Pop,
    ModelRemove(usize),
    ModelMove(usize, usize),
    ModelMany(Vec<u32>),
    ModelUpdate,
    Options(Vec<u32>),
    Open(usize),
    Close(usize),
    Event(usize),
    CellSet(u32),
    StoreSet(u8),
    Mount(Spec),
    Unmount(usize),
    Restart,
    Idle,
    Turn,
}
struct Gate {
    open: Cell<bool>,
    ws: RefCell<Vec<Waker>>,
}
struct Env {
    gates: Vec<Gate>,
    buttons: Vec<Button>,
    cell: ReactiveCell<u32>,
    store: Store<Data>,
    restart: Gate,
    hidden: Cell<bool>,
    leaf: RefCell<Vec<Spec>>,
}
fn gate(env: &Rc<Env>, i: usize) -> impl Future<Output = ()> {
    let env = env.clone();
    poll_fn(move |cx| {
        step();
        let g = if i == usize::MAX { &env.restart } else { &env.gates[i] };
        // A restart happens once.
        if if i == usize::MAX { g.open.replace(false) } else { g.open.get() } {
            return Poll::Ready(());
        }
        let mut ws = g.ws.borrow_mut();
        if !ws.iter().any(|w| w.will_wake(cx.waker())) {
            ws.push(cx.waker().clone());
        }
        Poll::Pending
    })
}
impl Gate {
    fn new() -> Gate {
        Gate { open: Cell::new(false), ws: RefCell::default() }
    }
    fn open(&self) {
        self.open.set(true);
        self.wake();
    }
    fn wake(&self) {
        for w in std::mem::take(&mut *self.ws.borrow_mut()) {
            w.wake();
        }
    }
}
async fn result(f: Fut, ok: bool) -> Result<(), ()> {
    f.await;
    if ok {
        Ok(())
    } else {
        Err(())
    }
}
fn build(env: &Rc<Env>, s: &Spec) -> Fut {
    let e = env.clone();
    let sub = |v: &[Spec]| -> Vec<Fut> { v.iter().map(|s| build(env, s)).collect() };
    match s.clone() {
        Spec::Text => Box::pin(async { "text".render().await }),
        Spec::Gate(i) => Box::pin(gate(env, i)),
        Spec::Event(b, again) => Box::pin(async move {
            loop {
                e.buttons[b].until_click().await;
                if !again {
                    return;
                }
            }
        }),
        Spec::Cell(each) => Box::pin(async move {
            if each {
                e.cell.for_each(|v| drop(vec![*v; 9])).await
            } else {
                e.cell.until_change().await
            }
        }),
        Spec::Store(k) => Box::pin(async move {
            let p = e.store.build_path();
            match k % 4 {
                0 => p.v().index(k as usize / 4).until_change().map_next().await,
                1 => p.n().for_each(|v| drop(vec![*v; 9])).await,
                2 => p.v().until_bubbling_change().map_next().await,
                _ => {
                    p.v()
                        .index(k as usize / 4)
                        .for_each_async(|v| {
                            let n = *v;
                            async move { drop(vec![n; 9]) }
                        })
                        .await
                }
            }
        }),
        Spec::Yield(n) => {
            let mut n = n;
            Box::pin(poll_fn(move |cx| {
                step();
                if n == 0 {
                    return Poll::Ready(());
                }
                n -= 1;
                cx.waker().wake_by_ref();
                Poll::Pending
            }))
        }
        Spec::El(v) => {
            let v = sub(&v);
            Box::pin(async move {
                let d = Div::new();
                d.render(join(v)).await;
            })
        }
        Spec::Race(v) => {
            let v = sub(&v);
            Box::pin(async move { race(v).await })
        }
        Spec::Join(v) => {
            let v = sub(&v);
            Box::pin(async move { drop(join(v).await) })
        }
        Spec::JoinArr(s, _) => {
            let (a, b, c) = (build(env, &s), build(env, &s), build(env, &s));
            Box::pin(async move { drop(join([race((a, b)), race((c, build(&e, &Spec::Gate(3))))]).await) })
        }
        Spec::TryJoin(v) => {
            let v: Vec<_> = v.iter().enumerate().map(|(i, s)| result(build(env, s), i % 2 == 0)).collect();
            Box::pin(async move { drop(try_join(v).await) })
        }
        Spec::RaceOk(v) => {
            let v: Vec<_> = v.iter().enumerate().map(|(i, s)| result(build(env, s), i % 2 == 1)).collect();
            Box::pin(async move { drop(race_ok(v).await) })
        }
        Spec::Meanwhile(p) => {
            let (a, b) = (build(env, &p.0), build(env, &p.1));
            Box::pin(async move { a.meanwhile(b).await })
        }
        Spec::Select(p) => {
            let (a, b) = (build(env, &p.0), build(env, &p.1));
            Box::pin(async move {
                select! {
                    _ = a => "left".render().meanwhile_once().await,
                    _ = b => {}
                }
            })
        }
        Spec::Spawn(s, fallible) => {
            let f = build(env, &s);
            Box::pin(async move {
                let t = get_executor().spawn(f);
                if fallible {
                    drop(t.fallible().await)
                } else {
                    t.await
                }
            })
        }
        Spec::Slot(p) => {
            let (a, b) = (build(env, &p.0), build(env, &p.1));
            Box::pin(async move {
                let slot = DynamicSlot::new();
                race((slot.render(), async {
                    slot.set_future(a);
                    gate(&e, 0).await;
                    slot.set_future(b);
                    gate(&e, 1).await;
                }))
                .await
            })
        }
        Spec::List(v) => {
            let v = sub(&v);
            Box::pin(async move {
                let l = DynamicList::new();
                for (i, f) in v.into_iter().enumerate() {
                    l.insert(i, f, Some(&(i / 2)));
                }
                race((l.render(), async {
                    gate(&e, 1).await;
                    l.retain(|k| k % 2 == 0);
                    std::future::pending().await
                }))
                .await
            })
        }
        Spec::Dropdown(n) => Box::pin(async move {
            let d = Dropdown::new();
            d.update_options((0..n).map(|i| (i, "opt")));
            race((d.render(), async {
                d.until_change().await;
            }))
            .await
        }),
        Spec::Virt(n) => Box::pin(async move {
            let (root, a, b) = (Div::new(), Div::new(), Div::new());
            let l = VirtualizedList::new(
                &root.element,
                (*a.element).clone().unchecked_into(),
                (*b.element).clone().unchecked_into(),
                |_| Div::new().render("row".render()),
            );
            l.set_num_items(n);
            root.render(l.render()).await
        }),
        Spec::Again(s, n) => {
            let s = *s;
            Box::pin(async move {
                for _ in 0..n {
                    build(&e, &s).await
                }
            })
        }
    }
}
trait NextItem {
    async fn map_next(self);
}
impl<S: futures_core::Stream + Unpin> NextItem for S {
    async fn map_next(mut self) {
        poll_fn(|cx| Pin::new(&mut self).poll_next(cx).map(|_| ())).await
    }
}
trait Once {
    fn meanwhile_once(self) -> Fut;
}
impl<F: Future + 'static> Once for F {
    fn meanwhile_once(self) -> Fut {
        Box::pin(async move {
            let mut n = 0;
            race((
                async move {
                    self.await;
                },
                poll_fn(move |cx| {
                    n += 1;
                    cx.waker().wake_by_ref();
                    if n > 2 {
                        Poll::Ready(())
                    } else {
                        Poll::Pending
                    }
                }),
            ))
            .await
        })
    }
}
const GATES: usize = 4;
fn spec(depth: usize) -> Spec {
    spec_in(depth, true)
}
/// `ui`: may render (a spawned task has no place on the screen).
fn spec_in(depth: usize, ui: bool) -> Spec {
    let spec = |d: usize| spec_in(d, ui);
    if depth == 0 || chance(1, 4) {
        return match weighted(&[if ui { 3 } else { 0 }, 4, 3, 3, 4, 2, ui as usize, 2 * ui as usize]) {
            0 => Spec::Text,
            1 => Spec::Gate(choose(GATES)),
            2 => Spec::Event(choose(2), chance(1, 2)),
            3 => Spec::Cell(chance(1, 2)),
            4 => Spec::Store(choose(16) as u8),
            5 => Spec::Yield(choose(4) as u32),
            6 => Spec::Dropdown(choose(4) as u32),
            _ => Spec::Virt(choose(6)),
        };
    }
    let some = |lo: usize| -> Vec<Spec> { (0..range(lo, 3)).map(|_| spec(depth - 1)).collect() };
    let two = || Box::new((spec(depth - 1), spec(depth - 1)));
    // The combinators work on the screen's tree, too.
    match weighted(&if ui { [6, 4, 3, 2, 3, 3, 3, 3, 3, 4, 4, 3] } else { [0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 2] }) {
        0 => Spec::El(some(0)),
        1 => Spec::Race(some(1)),
        2 => Spec::Join(some(0)),
        3 => Spec::JoinArr(Box::new(spec(depth - 1)), 0),
        4 => Spec::TryJoin(some(0)),
        5 => Spec::RaceOk(some(1)),
        6 => Spec::Meanwhile(two()),
        7 => Spec::Select(two()),
        8 => Spec::Spawn(Box::new(spec_in(depth - 1, false)), chance(1, 2)),
        9 => Spec::Slot(two()),
        10 => Spec::List(some(0)),
        _ => Spec::Again(Box::new(spec(depth - 1)), 1 + choose(3) as u32),
    }
}
fn keys() -> Vec<u32> {
    let mut v: Vec<u32> = (0..6).filter(|_| chance(1, 2)).collect();
    for i in (1..v.len()).rev() {
        v.swap(i, choose(i + 1));
    }
    v
}
fn op() -> Op {
    match weighted(&[8, 6, 3, 2, 2, 4, 3, 1, 2, 2, 1, 4, 2, 5, 2, 4, 4, 4, 4, 3, 1, 5, 6, 2, 2, 1]) {
        0 => Op::Slot(choose(2), if chance(1, 5) { None } else { Some(spec(3)) }),
        1 => Op::Insert(choose(6) as u32, spec(2), choose(8) as u32),
        2 => Op::Remove(choose(6) as u32),
        3 => Op::Move(choose(6) as u32, choose(8) as u32),
        4 => Op::Swap(choose(6) as u32, choose(6) as u32),
        5 => Op::Diff(keys()),
        6 => Op::Push(choose(6) as u32),
        7 => Op::Pop,
        8 => Op::ModelRemove(choose(6)),
        9 => Op::ModelMove(choose(6), choose(6)),
        10 => Op::ModelMany(keys()),
        11 => Op::ModelUpdate,
        12 => Op::Options(keys()),
        13 => Op::Open(choose(GATES)),
        14 => Op::Close(choose(GATES)),
        15 => Op::Event(choose(2)),
        16 => Op::CellSet(choose(9) as u32),
        17 => Op::StoreSet(choose(16) as u8),
        18 => Op::Mount(spec(3)),
        19 => Op::Unmount(choose(4)),
        20 => Op::Restart,
        21 => Op::Idle,
        22 => Op::Turn,
        23 => Op::Retain(keys()),
        24 => Op::Hide,
        _ => Op::Show,
    }
}
fn idle() {
    loop {
        settle(4000);
        let p = sim::pending_intersections();
        if p.is_empty() {
            return;
        }
        for o in p {
            sim::deliver_intersection(o);
        }
    }
}
fn set(store: &Store<Data>, k: u8) {
    let p = store.build_path();
    match k % 4 {
        0 => {
            if let Some(mut v) = p.v().index(k as usize / 4).borrow_opt_mut() {
                *v += 1;
            }
        }
        1 => *p.n().borrow_opt_mut().unwrap() += 1,
        2 => p.v().borrow_opt_mut().unwrap().push(7),
        _ => drop(p.v().borrow_opt_mut().unwrap().pop()),
    }
}

pub fn leak() {
    let env = Rc::new(Env {
        gates: (0..GATES).map(|_| Gate::new()).collect(),
        buttons: (0..2).map(|_| Button::new()).collect(),
        cell: ReactiveCell::new(0),
        store: Store::new(Data::default()),
        restart: Gate::new(),
        hidden: Cell::new(false),
        leaf: RefCell::new((0..3).map(|_| spec(1)).collect()),
    });
    let rend = |env: &Rc<Env>| -> Rend {
        let e = env.clone();
        Box::new(move |k: &u32| {
            let s = e.leaf.borrow()[*k as usize % 3].clone();
            let f = build(&e, &s);
            Box::pin(async move { Span::new().render(f).await })
        })
    };
    struct Parts {
        slots: [DynamicSlot<Fut>; 2],
        list: DynamicList<'static, u32, Fut>,
        diffed: DiffedList<'static, u32, Rend, Fut>,
        modeled: ModeledList<'static, u32, Fut, Rend>,
        dropdown: Dropdown<u32>,
    }
    let parts = Rc::new(Parts {
        slots: [DynamicSlot::new(), DynamicSlot::new()],
        list: DynamicList::new(),
        diffed: DiffedList::new(rend(&env)),
        modeled: ModeledList::new(rend(&env)),
        dropdown: Dropdown::new(),
    });
    let mut model: ListModel<u32> = ListModel::new();
    let doc = web_sys::window().unwrap().document().unwrap();
    let main = doc.create_element("main").unwrap();
    doc.body().unwrap().append_child(&main).unwrap();
    let (p2, e2) = (parts.clone(), env.clone());
    let e4 = env.clone();
    let buttons = async move { drop(join((e4.buttons[0].render(std::future::pending::<()>()), e4.buttons[1].render(std::future::pending::<()>()))).await) };
    let host = mount_at(
        join((buttons, async move {
            loop {
                poll_fn(|cx| {
                    step();
                    if !e2.hidden.get() {
                        return Poll::Ready(());
                    }
                    e2.restart.ws.borrow_mut().push(cx.waker().clone());
                    Poll::Pending
                })
                .await;
                race((
                    join((
                        Div::new().render(p2.slots[0].render()),
                        p2.slots[1].render(),
                        Div::new().render(join((p2.list.render(), p2.diffed.render()))),
                        p2.modeled.render(),
                        p2.dropdown.render(),
                    ))
                    .pend_after(),
                    gate(&e2, usize::MAX),
                ))
                .await;
            }
        })),
        main.clone().into(),
    );
    let by_pop = chance(1, 2);
    let n = range(1, 14);
    let ops: Vec<Op> = (0..n).map(|_| span(op)).collect();
    for o in &ops {
        let kind = match o {
            Op::Slot(..) => "slot content replaced",
            Op::Insert(..) | Op::Remove(..) | Op::Retain(..) | Op::Move(..) | Op::Swap(..) => "dynamic list changed",
            Op::Diff(..) => "diffed list changed",
            Op::Push(..) | Op::Pop | Op::ModelRemove(..) | Op::ModelMove(..) | Op::ModelMany(..) | Op::ModelUpdate => "modeled list changed",
            Op::Options(..) => "dropdown options changed",
            Op::Open(..) | Op::Close(..) => "future completed",
            Op::Event(..) => "user event",
            Op::CellSet(..) | Op::StoreSet(..) => "data changed",
            Op::Mount(..) | Op::Unmount(..) => "task mounted or cancelled",
            Op::Hide | Op::Show => "everything un-rendered for a while",
            Op::Restart => "everything un-rendered and re-rendered",
            Op::Idle | Op::Turn => "browser turn",
        };
        fault(kind);
        log(format!("{o:?}"));
    }
    // Elements that host mounted tasks, reused by every repetition.
    let holders: Vec<web_sys::Element> = (0..4).map(|_| doc.create_element("aside").unwrap()).collect();
    for h in &holders {
        doc.body().unwrap().append_child(h).unwrap();
    }
    let body = doc.body().unwrap();
    let body_id = AsRef::<wasm_bindgen::JsValue>::as_ref(&body).obj_id().unwrap();
    let holders2 = holders.clone();
    let (p3, e3) = (parts.clone(), env.clone());
    let mut repeat = move || {
        let before = with(|r| r.steps);
        let mut tasks = vec![None, None, None, None];
        for o in &ops {
            match o.clone() {
                Op::Slot(i, Some(s)) => drop(p3.slots[i].set_future(build(&e3, &s))),
                Op::Slot(i, None) => p3.slots[i].clear_future(),
                Op::Insert(k, s, b) => drop(p3.list.insert(k, build(&e3, &s), if b == k { None } else { Some(&b) })),
                Op::Remove(k) => drop(p3.list.remove(&k)),
                Op::Move(k, b) => {
                    if p3.list.contains_key(&k) {
                        p3.list.move_before(&k, if b == k { None } else { Some(&b) })
                    }
                }
                Op::Swap(a, b) => {
                    if p3.list.contains_key(&a) && p3.list.contains_key(&b) {
                        p3.list.swap(&a, &b)
                    }
                }
                Op::Retain(k) => p3.list.retain(|x| k.contains(x)),
                Op::Hide => {
                    e3.hidden.set(true);
                    e3.restart.open();
                }
                Op::Show => {
                    e3.hidden.set(false);
                    e3.restart.wake();
                }
                Op::Diff(k) => p3.diffed.update(k),
                Op::Push(k) => {
                    if !model.contains(&k) {
                        model.push(k)
                    }
                }
                Op::Pop => drop(model.pop()),
                Op::ModelRemove(i) => {
                    if i < model.len() {
                        model.remove(i);
                    }
                }
                Op::ModelMove(a, b) => {
                    if a < model.len() && b < model.len() {
                        model.move_item(a, b)
                    }
                }
                Op::ModelMany(k) => *model.modify_vec() = k,
                Op::ModelUpdate => p3.modeled.update(&model),
                Op::Options(k) => p3.dropdown.update_options(k.into_iter().map(|k| (k, "option"))),
                Op::Open(i) => e3.gates[i].open(),
                Op::Close(i) => e3.gates[i].open.set(false),
                Op::Event(i) => {
                    let ev = sim::new_event("MouseEvent", "click", true, true);
                    let id = AsRef::<wasm_bindgen::JsValue>::as_ref(&e3.buttons[i].element).obj_id().unwrap();
                    sim::user_dispatch(id, &ev);
                }
                Op::CellSet(v) => *e3.cell.borrow_mut() = v,
                Op::StoreSet(k) => set(&e3.store, k),
                Op::Mount(s) => {
                    if let Some(i) = tasks.iter().position(|t| t.is_none()) {
                        tasks[i] = Some(mount_at(build(&e3, &s), holders2[i].clone().into()));
                    }
                }
                Op::Unmount(i) => drop(tasks[i].take()),
                Op::Restart => {
                    e3.restart.open();
                    idle();
                    e3.restart.open.set(false);
                }
                Op::Idle => idle(),
                Op::Turn => {
                    let t = sim::pending_timers();
                    if !t.is_empty() {
                        sim::fire_timer(t[0].id);
                    }
                }
            }
        }
        // Back to the start.
        for s in &p3.slots {
            s.clear_future();
        }
        p3.list.retain(|_| false);
        p3.diffed.update(vec![]);
        if by_pop {
            while model.pop().is_some() {}
        } else {
            model.modify_vec().clear();
        }
        p3.modeled.update(&model);
        p3.dropdown.update_options([]);
        drop(tasks);
        for g in &e3.gates {
            g.open.set(false);
        }
        e3.restart.open.set(false);
        if e3.hidden.replace(false) {
            e3.restart.wake();
        }
        *e3.store.build_path().borrow_opt_mut().unwrap() = Data::default();
        idle();
        for g in &e3.gates {
            *g.ws.borrow_mut() = vec![];
        }
        // Only one repetition counts.
        with(|r| r.steps = before + (r.steps - before).min(1_000));
    };
    let screen = || sim::with(|w| (w.render(body_id), w.listener_count(), w.live_functions()));
    idle();
    repeat();
    probe("history_repeated");
    let first = screen();
    let observers = sim::live_observers();
    check!(observers == 0, "observer-leak", "{observers} intersection observers are left after everything was cleared");
    let mut marks = vec![];
    let nodes = || sim::with(|w| w.descendants(body_id).len());
    let mut counts = vec![nodes()];
    let mut handles = vec![wasm_bindgen::program_handles()];
    let mut done = 1;
    for upto in [8usize, 16, 32, 64, 128] {
        while done < upto {
            repeat();
            probe("history_repeated");
            done += 1;
        }
        let now = screen();
        check!(now.0 == first.0, "nodes-left", "after {done} repetitions the cleared screen is\n    {}\n  after the first it was\n    {}", now.0, first.0);
        check!(now.1 == first.1, "listener-leak", "after {done} repetitions {} event listeners are registered, after the first {}", now.1, first.1);
        check!(now.2 == first.2, "closure-leak", "after {done} repetitions {} closures are kept for the browser, after the first {}", now.2, first.2);
        check!(sim::live_observers() == 0, "observer-leak", "an intersection observer is left after everything was cleared");
        counts.push(nodes());
        check!(counts.len() < 4 || counts.windows(2).any(|w| w[1] <= w[0]), "node-leak", "every repetition of the same history leaves invisible nodes behind: {counts:?} nodes");
        handles.push(wasm_bindgen::program_handles());
        check!(handles.len() < 4 || handles.windows(2).any(|w| w[1] <= w[0]), "handle-leak", "every repetition of the same history keeps more references to browser objects: {handles:?}");
        marks.push(program_bytes());
        let k = marks.len();
        if k >= 2 && counts[k] <= counts[k - 1] && handles[k] <= handles[k - 1] && marks[k - 1] <= marks[k - 2] {
            probe("memory_level");
            break;
        }
        if k >= 2 {
            probe("memory_grew_once");
        }
    }
    if marks.len() == 5 && marks[4] > marks[3] {
        let g: Vec<i64> = marks.windows(2).map(|w| w[1] - w[0]).collect();
        check!(!(g[1] * 5 >= g[0] * 6 && g[2] * 5 >= g[1] * 6 && g[3] * 5 >= g[2] * 6), "memory-leak", "every repetition of the same history leaves memory behind: held after 8, 16, 32, 64, 128 repetitions: {marks:?}");
    }
    drop(host);
    idle();
}
