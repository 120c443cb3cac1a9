BUGS=[]
def bug(**k): BUGS.append(k)
W="async_ui_web_core/src/"; C=W+"combinators/"
bug(id="b01-position-u8", property="C01", edits=[
 (W+"position.rs","type PositionSegment = u32;","type PositionSegment = u8;"),
 (W+"context.rs","""                position.wrap(*index);
                parent.add_child(position, new_child);""","""                position.wrap(*index as _);
                parent.add_child(position, new_child);"""),
 (W+"context.rs","""                position.wrap(*index);
                parent.remove_child(position);""","""                position.wrap(*index as _);
                parent.remove_child(position);"""),
 ], needs="a join of a vector with more than 256 members that render something", what="members past the 256th are placed among the first ones (and two members can claim the same position)",
demo='''
use async_ui_web::{join, mount_at, prelude_traits::*};
use std::future::Future;
use std::pin::Pin;
fn main() {
    let c = container();
    let mut v: Vec<Pin<Box<dyn Future<Output = ()>>>> = Vec::new();
    let mut want = vec![];
    for i in 0..300usize {
        if i % 5 == 0 || i > 253 && i < 256 {
            want.push(format!("\\"{i}\\""));
            v.push(Box::pin(async move { i.to_string().as_str().render().await; std::future::pending::<()>().await }));
        } else {
            v.push(Box::pin(std::future::pending()));
        }
    }
    let t = mount_at(join(v), c.clone());
    settle();
    assert_eq!(shown(&c), format!("main[{}]", want.join(" ")));
    drop(t);
    settle();
    assert_eq!(shown(&c), "main[]");
}
''')
bug(id="b02-remove-last-node-only", property="C02", edits=[
 (W+"context.rs","""        while let Some((key, child)) = tree.range(range.clone()).next_back() {""","""        let first = tree.range(range.clone()).next().map(|(key, _)| key.clone());
        while let Some((key, child)) = tree.range(range.clone()).next_back() {
            // Nodes are removed from the last one to the first.
            let done = key.clone() == first.clone().unwrap_or_default() || key.is_root();"""),
 (W+"context.rs","""            tree.remove(&key.clone());
""","""            let depth_left = range.contains(&key.clone()) && !done;
            tree.remove(&key.clone());
            if !depth_left {
                break;
            }
            if tree.len() == 1 {
                break;
            }
"""),
 ], needs="a future with several top-level nodes, dropped while it makes up all but one of the nodes of its container", what="one node of the removed future stays on screen", demo='''
''')
BUGS.pop()
bug(id="b02-blocker-unset-by-anyone", property="C02", edits=[
 (W+"dropping.rs","""        let addr = self as *const DetachmentBlocker;
        IS_DROPPING.with(|cell| {
            // Make sure we're the one meant to unset this thread local.
            if std::ptr::eq(cell.get(), addr) {
                cell.set(std::ptr::null());
            }
        });""","""        IS_DROPPING.with(|cell| {
            if !cell.get().is_null() {
                cell.set(std::ptr::null());
            }
        });"""),
 ], needs="unmounting (or dropping) a tree in which an element has at least two rendered descendants dropped one after the other", what="the second descendant tries to detach itself from a context that is not its own: a panic, or removal of a foreign node", demo='''
use async_ui_web::{html::Div, join, mount_at, prelude_traits::*, components::DynamicSlot};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
fn main() {
    let c = container();
    let slot: Rc<DynamicSlot<Pin<Box<dyn Future<Output = ()>>>>> = Rc::new(DynamicSlot::new());
    let s2 = slot.clone();
    let t = mount_at(async move {
        join(("first".render(), s2.render(), "last".render())).await;
    }, c.clone());
    slot.set_future(Box::pin(async {
        // Locals of a component, dropped in reverse order.
        let a = Div::new();
        let b = Div::new();
        let fa = a.render(join(("x".render(), "y".render())));
        let fb = b.render(join(("z".render(), "w".render())));
        join((fa, fb)).await;
    }));
    settle();
    assert_eq!(shown(&c), r#"main["first" div["x" "y"] div["z" "w"] "last"]"#);
    slot.clear_future();
    settle();
    assert_eq!(shown(&c), r#"main["first" "last"]"#);
    slot.set_future(Box::pin(async { "again".render().await; }));
    settle();
    assert_eq!(shown(&c), r#"main["first" "again" "last"]"#);
    drop(t);
    settle();
    assert_eq!(shown(&c), "main[]");
}
''')
bug(id="b03-outputs-after-gap-leak", property="C03", edits=[
 (C+"common/vec.rs","        for (filled, output) in this.filled.iter().zip(this.items.iter_mut()) {\n            if *filled {","        let done = this.filled.count_ones();\n        for (filled, output) in this.filled.iter().zip(this.items.iter_mut()).take(done) {\n            if *filled {"),
 ], needs="a join/try_join/race_ok over a vector cancelled after members finished out of order", what="outputs of members that finished after an unfinished one are never dropped", demo='''
use async_ui_web_core::combinators::join;
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
struct D(Rc<Cell<u32>>);
impl Drop for D { fn drop(&mut self) { self.0.set(self.0.get() + 1) } }
fn main() {
    let drops = Rc::new(Cell::new(0));
    let w = Count::new();
    let c = container();
    {
        let g = Gate::new();
        let g2 = Gate::new();
        let (d1, d2, d3) = (drops.clone(), drops.clone(), drops.clone());
        let (ga, gb) = (g.clone(), g2.clone());
        let v: Vec<Pin<Box<dyn Future<Output = D>>>> = vec![
            Box::pin(async move { ga.await; D(d1) }),
            Box::pin(async move { gb.await; D(d2) }),
            Box::pin(async move { D(d3) }),
        ];
        let mut f = Box::pin(async_ui_web_core::ContainerNodeFuture::new_root(join(v), c));
        assert!(poll(f.as_mut(), &w).is_pending());
        g2.open();
        assert!(poll(f.as_mut(), &w).is_pending());
        assert_eq!(drops.get(), 0);
    }
    assert_eq!(drops.get(), 2);
}
''')
bug(id="b04-clear-after-polling", property="C04", edits=[
 (C+"common/vec.rs","""            this.awake_list_buffer.clone_from(readiness.awake_list());

            readiness.clear();
        }""","""            this.awake_list_buffer.clone_from(readiness.awake_list());
        }"""),
 (C+"common/vec.rs","""        if *this.pending == 0 {
            debug_assert!(""","""        this.wakers.readiness().clear();

        if *this.pending == 0 {
            debug_assert!("""),
 ], needs="a member of a vector combinator that is woken while it or a sibling is being polled", what="the wake-up is forgotten: the member is never polled again", demo='''
use async_ui_web_core::combinators::join;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::task::Poll;
fn main() {
    let w = Count::new();
    let c = container();
    let mut n = 0;
    let v: Vec<Pin<Box<dyn Future<Output = ()>>>> = vec![
        Box::pin(poll_fn(move |cx| {
            n += 1;
            if n == 3 { return Poll::Ready(()); }
            cx.waker().wake_by_ref();
            Poll::Pending
        })),
        Box::pin(async {}),
    ];
    let mut f = Box::pin(async_ui_web_core::ContainerNodeFuture::new_root(join(v), c));
    let mut polls = 0;
    while w.n() >= polls {
        polls += 1;
        if poll(f.as_mut(), &w).is_ready() { return; }
    }
    panic!("the combinator is waiting, but nobody will wake it");
}
''')
bug(id="b05-wake-after-drop", property="C05", edits=[
 (C+"utils/wakers/shared_arc.rs","""            wake_by_ref::<A>(pointer);
            drop_waker::<A>(pointer);
""","""            // The combinator, if it still cares, keeps the Arc alive.
            drop_waker::<A>(pointer);
            wake_by_ref::<A>(pointer);
"""),
 ], needs="a member's waker that outlives its combinator and is then woken by value", what="the shared waker storage is used after it was freed", demo='''
use async_ui_web_core::combinators::join;
use std::alloc::{GlobalAlloc, Layout, System};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::Poll;
/// Freed memory is overwritten and not used again.
struct Poison;
static ON: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Ordering::SeqCst) {
            std::ptr::write_bytes(p, 0, l.size());
        } else {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static A: Poison = Poison;
fn main() {
    let w = Count::new();
    let c = container();
    let mut kept = vec![];
    {
        let kept = &mut kept;
        let mut f = Box::pin(async_ui_web_core::ContainerNodeFuture::new_root(
            join([Box::pin(poll_fn(move |cx| { kept.push(cx.waker().clone()); Poll::<()>::Pending })) as Pin<Box<dyn Future<Output = ()>>>]),
            c,
        ));
        assert!(poll(f.as_mut(), &w).is_pending());
    }
    ON.store(true, Ordering::SeqCst);
    for k in kept { k.wake(); }
}
''')
bug(id="b06-wake-while-active", property="C06", edits=[
 (W+"executor.rs","        if !exe.scheduled.replace(true) && !exe.active.get() {","        if !exe.active.get() && !exe.scheduled.replace(true) {"),
 ], needs="a task woken while the executor is running, by something else than the task's own poll bookkeeping (for example a wake from inside another task's poll that ends the current round)", what="wakes during a run are forgotten: the task stays asleep until something else schedules the executor", demo='''
use async_ui_web::executor::get_executor;
use std::cell::Cell;
use std::future::poll_fn;
use std::rc::Rc;
use std::task::Poll;
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    get_executor().spawn(poll_fn(move |cx| {
        m.set(m.get() + 1);
        if m.get() == 1000 { return Poll::Ready(()); }
        cx.waker().wake_by_ref();
        Poll::Pending
    })).detach();
    settle();
    assert_eq!(n.get(), 1000);
}
''')
bug(id="b07-first-event-wins", property="C07", edits=[
 ("async_ui_web_html/src/event_handling.rs","                    inner.0 = Some(ev.unchecked_into());","                    inner.0.get_or_insert_with(|| ev.unchecked_into());"),
 ], needs="several events on an element before the waiting future is polled again", what="the consumer gets the oldest of the events instead of the latest", demo='''
use async_ui_web_html::events::EmitEvent;
fn main() {
    let doc = web_sys::window().unwrap().document().unwrap();
    let t: web_sys::EventTarget = doc.create_element("button").unwrap().into();
    let w = Count::new();
    let mut s = Box::pin(t.until_event::<web_sys::Event>("click".into()));
    assert!(poll(s.as_mut(), &w).is_pending());
    for i in 0..3 {
        let ev = wasm_bindgen::sim::new_event("Event", "click", true, true);
        wasm_bindgen::sim::set_prop(&ev, "mark", wasm_bindgen::JsValue::from_f64(i as f64));
        wasm_bindgen::sim::dispatch(dom_id(&t), &ev);
    }
    match poll(s.as_mut(), &w) {
        std::task::Poll::Ready(ev) => {
            let m = wasm_bindgen::sim::get_prop(ev.as_ref(), "mark").as_f64();
            assert_eq!(m, Some(2.0));
        }
        _ => panic!("no event"),
    }
}
''')
bug(id="b08-slot-waker", property="C08", edits=[
 ("async_ui_web/src/components/dynamic_slot.rs","                if !channel.0.will_wake(cx.waker()) {","                if matches!(channel.1, Message::NoChange) && !channel.0.will_wake(cx.waker()) {"),
 ], needs="a slot whose future is set before its first rendering, and replaced before anything else wakes the slot", what="the replacement is never shown", demo='''
use async_ui_web::{mount_at, prelude_traits::*, components::DynamicSlot};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
fn main() {
    let c = container();
    let slot: Rc<DynamicSlot<Pin<Box<dyn Future<Output = ()>>>>> = Rc::new(DynamicSlot::new());
    slot.set_future(Box::pin(async { "one".render().await; }));
    let s2 = slot.clone();
    let t = mount_at(async move { s2.render().await }, c.clone());
    settle();
    assert_eq!(shown(&c), r#"main["one"]"#);
    slot.set_future(Box::pin(async { "two".render().await; }));
    settle();
    assert_eq!(shown(&c), r#"main["two"]"#);
    slot.clear_future();
    settle();
    assert_eq!(shown(&c), "main[]");
    drop(t);
    settle();
}
''')
bug(id="b10-diffed-list-emptied", property="C10", edits=[
 ("async_ui_web/src/lists/diffed_list.rs","        inner.prev_keys_list = new_keys;","        if !new_keys.is_empty() {\n            inner.prev_keys_list = new_keys;\n        }"),
 ], needs="a list that is emptied and then filled with some of the keys it had before", what="keys that come back after the list was empty are not shown (or the update panics)", demo='''
use async_ui_web::{mount_at, prelude_traits::*, lists::DiffedList};
use std::rc::Rc;
fn main() {
    let c = container();
    let list = Rc::new(DiffedList::new(|k: &i32| { let k = *k; async move { k.to_string().as_str().render().await; } }));
    let l2 = list.clone();
    let t = mount_at(async move { l2.render().await }, c.clone());
    list.update(vec![1, 2, 3]);
    settle();
    assert_eq!(shown(&c), r#"main["1" "2" "3"]"#);
    list.update(vec![]);
    settle();
    assert_eq!(shown(&c), "main[]");
    list.update(vec![2, 4]);
    settle();
    assert_eq!(shown(&c), r#"main["2" "4"]"#);
    drop(t);
    settle();
}
''')
bug(id="b11-cloned-model-identity", property="C11", edits=[
 ("async_ui_web/src/lists/modeled_list.rs","""    fn clone(&self) -> Self {
        Self::default()
    }""","""    fn clone(&self) -> Self {
        Self {
            changes: VecDeque::new(),
            version: self.version,
            unique: self.unique.clone(),
        }
    }"""),
 ], needs="a view updated alternately from a model and from a clone of it, after both were edited differently", what="the view takes the clone for the model it already shows and keeps (or misapplies) stale content", demo='''
use async_ui_web::{mount_at, prelude_traits::*, lists::{ListModel, ModeledList}};
use std::rc::Rc;
fn main() {
    let c = container();
    let list = Rc::new(ModeledList::new(|k: &i32| { let k = *k; async move { k.to_string().as_str().render().await; } }));
    let l2 = list.clone();
    let t = mount_at(async move { l2.render().await }, c.clone());
    let mut a = ListModel::from(vec![1, 2, 3, 4, 5, 6]);
    list.update(&a);
    let mut b = a.clone();
    a.push(7);
    list.update(&a);
    settle();
    assert_eq!(shown(&c), r#"main["1" "2" "3" "4" "5" "6" "7"]"#);
    b.push(8);
    list.update(&b);
    settle();
    assert_eq!(shown(&c), r#"main["1" "2" "3" "4" "5" "6" "8"]"#);
    drop(t);
    settle();
}
''')
bug(id="b12-dropdown-stale-label", property="C12", edits=[
 ("async_ui_web/src/components/dropdown.rs","""            }
            map.get(&opt).unwrap().set_text_content(Some(text));""","""                map.get(&opt).unwrap().set_text_content(Some(text));
            }"""),
 ], needs="an update that gives a new text to an option that keeps its place", what="the option goes on showing its old text", demo='''
use async_ui_web::{mount_at, components::Dropdown};
use std::rc::Rc;
fn main() {
    let c = container();
    let d = Rc::new(Dropdown::<i32>::new());
    let d2 = d.clone();
    let t = mount_at(async move { d2.render().await }, c.clone());
    d.update_options([(1, "one"), (2, "two"), (3, "three")]);
    settle();
    assert_eq!(shown(&c), r#"main[select[option["one"] option["two"] option["three"]]]"#);
    d.update_options([(1, "one"), (2, "TWO"), (3, "three")]);
    settle();
    assert_eq!(shown(&c), r#"main[select[option["one"] option["TWO"] option["three"]]]"#);
    drop(t);
    settle();
}
''')
bug(id="b15-enum-fields-collide", property="C15", edits=[
 ("x-bow-macros/src/generate.rs","    for (field_index, field) in filtered_fields.iter().enumerate() {","    for field in filtered_fields.iter() {\n        let field_index = field.index();"),
 ("x-bow-macros/src/generate.rs","    fn is_deep(&self) -> bool {","    fn index(&self) -> usize {\n        *match self {\n            ToGenField::Struct { index, .. } => index,\n            ToGenField::Enum { index, .. } => index,\n        }\n    }\n    fn is_deep(&self) -> bool {"),
 ], needs="an enum with tracked fields in more than one variant, a listener on a field of one variant and a change to the field with the same number in another", what="a wait fires for a change of an unrelated path", demo='''
use x_bow::{PathExt, Store, Trackable};
#[derive(Trackable)]
enum E { A(u32), #[allow(dead_code)] B(u32) }
fn main() {
    let s = Store::new(E::A(1));
    let root = s.build_path();
    let b = root.B_0();
    let mut u = Box::pin(b.until_change());
    let w = Count::new();
    assert!(poll_next(u.as_mut(), &w).is_pending());
    *root.A_0().borrow_opt_mut().unwrap() = 2;
    assert_eq!(w.n(), 0);
    assert!(poll_next(u.as_mut(), &w).is_pending());
    root.borrow_opt_mut();
    assert_eq!(w.n(), 1);
    assert!(poll_next(u.as_mut(), &w).is_ready());
}
''')
bug(id="b15-index-mod-256", property="C15", edits=[
 ("x-bow/src/impls/stdlib/vec.rs","        visitor.write_usize(self.index);","        // indexes are small, hash as little as possible\n        visitor.write_u8(self.index as u8);"),
 ], needs="a list of more than 256 elements, a listener at an index and a change 256 places away", what="a wait fires for a change of an unrelated element", demo='''
use x_bow::{PathExt, Store};
fn main() {
    let s = Store::new(vec![0u32; 600]);
    let root = s.build_path();
    let p = root.index(3);
    let mut u = Box::pin(p.until_change());
    let w = Count::new();
    assert!(poll_next(u.as_mut(), &w).is_pending());
    *root.index(259).borrow_opt_mut().unwrap() = 2;
    assert_eq!(w.n(), 0);
    assert!(poll_next(u.as_mut(), &w).is_pending());
    *root.index(3).borrow_opt_mut().unwrap() = 2;
    assert_eq!(w.n(), 1);
    assert!(poll_next(u.as_mut(), &w).is_ready());
}
''')
bug(id="b18-sublists-stay", property="C18", edits=[
 ("x-bow/src/wakers.rs","""            std::collections::hash_map::Entry::Occupied(occ) => {
                self.all_wakers.remove(slot);
                let sublist = &occ.get().sublist;
                if self.all_wakers.remove_sublist_if_empty(sublist) {
                    occ.remove();
                }
            }""","""            std::collections::hash_map::Entry::Occupied(occ) => {
                let sublist = &occ.get().sublist;
                if self.all_wakers.remove_sublist_if_empty(sublist) {
                    occ.remove();
                } else {
                    self.all_wakers.remove(slot);
                }
            }"""),
 ], needs="many listeners on different paths created and dropped over time", what="the store keeps an entry for every path ever listened to", demo='''
use x_bow::{PathExt, Store};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let s = Store::new(vec![0u32; 5000]);
    let root = s.build_path();
    let w = Count::new();
    let round = |i: usize| {
        let p = root.index(i);
        let mut u = Box::pin(p.until_change());
        assert!(poll_next(u.as_mut(), &w).is_pending());
    };
    for i in 0..4 { round(i); }
    let base = LIVE.load(Ordering::SeqCst);
    for i in 0..5000 { round(i); }
    let grown = LIVE.load(Ordering::SeqCst) - base;
    assert!(grown < 4096, "the store grew by {grown} bytes");
}
''')
bug(id="b17-waker-only-when-pending", property="C17", edits=[
 ("x-bow/src/until_change.rs","            entry.set_waker(slot, new_waker);\n            ver + entry.get_version()","            if !this.polled || entry.get_version() == 1 {\n                entry.set_waker(slot, new_waker);\n            }\n            ver + entry.get_version()"),
 ], needs="a value loop whose task changes (its future is polled with another waker) after the data changed at least once", what="later changes wake the old task: the loop does not process the latest value", demo='''
use std::cell::RefCell;
use x_bow::{PathExt, Store};
fn main() {
    let s = Store::new(1u32);
    let root = s.build_path();
    let seen = RefCell::new(vec![]);
    let mut f = Box::pin(root.for_each(|v: &u32| seen.borrow_mut().push(*v)));
    let (w1, w2) = (Count::new(), Count::new());
    assert!(poll(f.as_mut(), &w1).is_pending());
    *root.borrow_opt_mut().unwrap() = 2;
    assert_eq!(w1.n(), 1);
    assert!(poll(f.as_mut(), &w1).is_pending());
    // The loop moves to another task.
    assert!(poll(f.as_mut(), &w2).is_pending());
    *root.borrow_opt_mut().unwrap() = 3;
    assert_eq!(w2.n(), 1, "nobody wakes the task that runs the loop");
    assert!(poll(f.as_mut(), &w2).is_pending());
    assert_eq!(*seen.borrow(), vec![1, 2, 3]);
}
''')
bug(id="b20-effect-kept", property="C20", edits=[
 (C+"extras/mod.rs","""    future: Option<F>,
    _phantom: PhantomData<T>,""","""    future: Option<F>,
    done: bool,
    _phantom: PhantomData<T>,"""),
 (C+"extras/mod.rs","""            future: Some(self),
            _phantom""","""            future: Some(self),
            done: false,
            _phantom"""),
 (C+"extras/mod.rs","        let mut this = self.project();\n","        let this = self.project();\n"),
 (C+"extras/mod.rs","""        if let Some(fut) = this.future.as_mut().as_pin_mut() {
            if fut.poll(cx).is_ready() {
                this.future.set(None);
            }
        }""","""        if let (Some(fut), false) = (this.future.as_pin_mut(), *this.done) {
            *this.done = fut.poll(cx).is_ready();
        }"""),
 ], needs="a meanwhile effect (or a pend_after future) that finishes before the other side does, holding nodes on screen", what="the finished effect is not dropped: what it shows stays on screen", demo='''
use async_ui_web::{mount_at, prelude_traits::*};
use async_ui_web_core::ContainerNodeFuture;
fn main() {
    let c = container();
    let (g1, g2) = (Gate::new(), Gate::new());
    let (a, b) = (g1.clone(), g2.clone());
    let doc = web_sys::window().unwrap().document().unwrap();
    let x = ContainerNodeFuture::new(a, doc.create_element("a").unwrap().into());
    let y = ContainerNodeFuture::new(b, doc.create_element("b").unwrap().into());
    let t = mount_at(async move { x.meanwhile(y).await }, c.clone());
    settle();
    assert_eq!(shown(&c), "main[a[] b[]]");
    g2.open();
    settle();
    assert_eq!(shown(&c), "main[a[]]");
    g1.open();
    settle();
    assert_eq!(shown(&c), "main[]");
    drop(t);
}
''')
bug(id="b21-losers-alive-in-handler", property="C21", edits=[
 ("async_ui_web_macros/src/select.rs","                match ::async_ui_web::race((","                match ::std::pin::pin!(::async_ui_web::race(("),
 ("async_ui_web_macros/src/select.rs","                )).await {","                ))).as_mut().await {"),
 ], needs="a select! whose handler awaits something while a losing branch had nodes on screen", what="the losing branches are only dropped when the handler is done", demo='''
use async_ui_web::{mount_at, prelude_traits::*, select};
fn main() {
    let c = container();
    let (g1, g2) = (Gate::new(), Gate::new());
    let (a, b) = (g1.clone(), g2.clone());
    let t = mount_at(async move {
        select! {
            _ = a => { b.await; },
            _ = "loser".render() => {}
        }
    }, c.clone());
    settle();
    assert_eq!(shown(&c), r#"main["loser"]"#);
    g1.open();
    settle();
    assert_eq!(shown(&c), "main[]");
    g2.open();
    settle();
    drop(t);
}
''')
bug(id="b22-tail-unlinked-badly", property="C22", edits=[
 ("async_ui_internal_utils/src/wakers_arena.rs","""        self.items[old_used_prev].next = old_used_next;
        self.items[old_used_next].prev = old_used_prev;
    }
    /// If""","""        self.items[old_used_prev].next = old_used_next;
        if old_used_next != old_used_prev {
            self.items[old_used_next].prev = old_used_prev;
        }
    }
    /// If"""),
 ], needs="a list whose only waker is removed before another one is added", what="the waker added afterwards is not in the list: it is never woken", demo='''
use async_ui_internal_utils::wakers_arena::WakersArena;
fn main() {
    let mut a = WakersArena::new();
    let l = a.add_sublist();
    let s = a.add(&l);
    let w = Count::new();
    a.update(&s, &waker(&w));
    assert_eq!(a.iter(&l).count(), 1);
    a.remove(&s);
    assert_eq!(a.iter(&l).count(), 0);
    let s1 = a.add(&l);
    a.update(&s1, &waker(&w));
    let s2 = a.add(&l);
    a.update(&s2, &waker(&w));
    for x in a.iter(&l).take(10) { x.wake_by_ref(); }
    assert_eq!(w.n(), 2);
}
''')
