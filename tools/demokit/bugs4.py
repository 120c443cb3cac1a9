BUGS=[]
def bug(**k): BUGS.append(k)
bug(id="b01-deep-order", property="C01", edits=[
 ("async_ui_web_core/src/position.rs","for (e1, e2) in s1.iter().rev().zip(s2.iter().rev()) {","for (e1, e2) in s1.iter().rev().zip(s2.iter().rev()).take(8) {"),
 ], needs="two parts whose positions differ only more than eight combinators below their element, the later one rendered first", what="deeply composed parts show up in the order they were first rendered, or replace each other", demo='''
use async_ui_web::{join, mount_at, prelude_traits::*};
use std::future::Future;
use std::pin::Pin;
fn nest(n: usize, g: Gate) -> Pin<Box<dyn Future<Output = ()>>> {
    Box::pin(async move {
        if n == 0 {
            join((async { g.await; "first".render().await; }, "last".render())).await;
        } else {
            join((nest(n - 1, g), async {})).await;
        }
    })
}
fn main() {
    let c = container();
    let g = Gate::new();
    let t = mount_at(nest(9, g.clone()), c.clone());
    settle();
    assert_eq!(shown(&c), r#"main["last"]"#);
    g.open();
    settle();
    assert_eq!(shown(&c), r#"main["first" "last"]"#);
    drop(t);
    settle();
    assert_eq!(shown(&c), "main[]");
}
''')
bug(id="b03-errors-backwards", property="C03", edits=[
 ("async_ui_web_core/src/combinators/race_ok/vec.rs","""    fn when_completed(errors: Vec<Self::StoredItem>) -> Self::Output {
        Err(errors)""","""    fn when_completed(mut errors: Vec<Self::StoredItem>) -> Self::Output {
        if errors.len() > 4 {
            errors.reverse();
        }
        Err(errors)"""),
 ], needs="race_ok over a vector of five or more futures that all fail", what="the errors come back in the wrong order", demo='''
use async_ui_web::race_ok;
use std::future::ready;
fn main() {
    for n in 1..20 {
        let v: Vec<_> = (0..n).map(|i| ready(Err::<(), i32>(i))).collect();
        let c = Count::new();
        let ok = std::rc::Rc::new(std::cell::Cell::new(false));
        let o2 = ok.clone();
        let t = async_ui_web::mount_at(async move {
            let r = race_ok(v).await;
            let e: Vec<i32> = match r { Err(e) => e.into_iter().collect(), Ok(()) => panic!() };
            assert_eq!(e, (0..n).collect::<Vec<_>>());
            o2.set(true);
        }, container());
        settle();
        assert!(ok.get());
        drop(t);
        let _ = c;
    }
}
''')
bug(id="b06-four-turns", property="C06", edits=[
 ("async_ui_web_core/src/executor.rs","""            while exe.scheduled.replace(false) {
""","""            let mut turns = 0;
            while turns < 4 && exe.scheduled.replace(false) {
                turns += 1;
"""),
 ], needs="a task that wakes itself from its own poll more often than the turns allowed, with nothing else going on", what="the executor stops although it was woken, and nobody starts it again", demo='''
use async_ui_web_core::executor::{run_now, schedule, set_executor_future};
use std::cell::Cell;
use std::future::poll_fn;
use std::rc::Rc;
use std::task::Poll;
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    set_executor_future(Box::new(poll_fn(move |cx| {
        m.set(m.get() + 1);
        if m.get() < 50 { cx.waker().wake_by_ref(); }
        Poll::<()>::Pending
    })));
    schedule();
    run_now();
    settle();
    assert_eq!(n.get(), 50);
}
''')
bug(id="b11-recycled-model", property="C11", edits=[
 ("async_ui_web/src/lists/modeled_list.rs","    unique: Cell<Option<Rc<()>>>,","    unique: Cell<Option<*const ()>>,"),
 ("async_ui_web/src/lists/modeled_list.rs",".is_some_and(|rc| Rc::ptr_eq(rc, &model.log.unique))",".is_some_and(|rc| std::ptr::eq(*rc, Rc::as_ptr(&model.log.unique)))"),
 ("async_ui_web/src/lists/modeled_list.rs","self.unique.set(Some(model.log.unique.clone()));","self.unique.set(Some(Rc::as_ptr(&model.log.unique)));"),
 ], needs="a list model dropped and replaced by a new one that happens to get the same address, with at least as many changes behind it", what="the list takes the new model for the old one and keeps showing the old entries", demo='''
use async_ui_web::{mount_at, prelude_traits::*, lists::{ListModel, ModeledList}};
use std::rc::Rc;
fn main() {
    let c = container();
    let list = Rc::new(ModeledList::new(|k: &i32| { let k = *k; async move { k.to_string().as_str().render().await; } }));
    let l2 = list.clone();
    let t = mount_at(async move { l2.render().await }, c.clone());
    for i in 0..200 {
        // a new model every time, the one before is gone
        let m = ListModel::from((i..i + 40).collect::<Vec<i32>>());
        list.update(&m);
        settle();
        let want: Vec<String> = m.iter().map(|k| format!("\\"{k}\\"")).collect();
        assert_eq!(shown(&c), format!("main[{}]", want.join(" ")));
        drop(m);
    }
    drop(t);
    settle();
}
''')
bug(id="b14-wakes-sixteen", property="C14", edits=[
 ("async_ui_internal_utils/src/reactive_cell/borrow_mut.rs","            .for_each(Waker::wake_by_ref);\n","            .take(16).for_each(Waker::wake_by_ref);\n"),
 ], needs="more than sixteen waits on one cell", what="the waits beyond the sixteenth are not woken by a mutation", demo='''
use async_ui_internal_utils::reactive_cell::ReactiveCell;
fn main() {
    let cell = ReactiveCell::new(0);
    let mut v: Vec<_> = (0..40).map(|_| (Box::pin(cell.until_change()), Count::new())).collect();
    for (u, w) in v.iter_mut() { assert!(poll(u.as_mut(), w).is_pending()); }
    *cell.borrow_mut() = 1;
    for (u, w) in v.iter_mut() {
        assert_eq!(w.n(), 1);
        assert!(poll(u.as_mut(), w).is_ready());
    }
}
''')
bug(id="b12-sixteen-options", property="C12", edits=[
 ("async_ui_web/src/components/dropdown.rs","inner.prev_opts_list.get(si as usize)","inner.prev_opts_list.get((si & 15) as usize)"),
 ], needs="a menu of more than sixteen options and a selection beyond the sixteenth", what="the dropdown reports another option than the one selected", demo='''
use async_ui_web::{mount_at, components::Dropdown};
use std::rc::Rc;
fn main() {
    let c = container();
    let d = Rc::new(Dropdown::<i32>::new());
    let d2 = d.clone();
    let t = mount_at(async move { d2.render().await }, c.clone());
    d.update_options((0..100).map(|i| (i, "x")));
    settle();
    for i in 0..100 {
        d.set_value(Some(i));
        assert_eq!(d.value(), Some(i));
    }
    drop(t);
    settle();
}
''')
bug(id="b22-sixty-four", property="C22", edits=[
 ("async_ui_internal_utils/src/wakers_arena.rs","            if index != sublist_head_index {\n","            left -= 1;\n            if index != sublist_head_index && left > 0 {\n"),
 ("async_ui_internal_utils/src/wakers_arena.rs","        let mut index = self.items[sublist_head_index].next;\n","        let mut index = self.items[sublist_head_index].next;\n        let mut left = 64;\n"),
 ], needs="a list of 64 or more wakers", what="iterating a long list stops early, so some wakers are never woken", demo='''
use async_ui_internal_utils::wakers_arena::WakersArena;
fn main() {
    let mut a = WakersArena::new();
    let l = a.add_sublist();
    for n in 1..300 {
        a.add(&l);
        assert_eq!(a.iter(&l).count(), n);
    }
}
''')
bug(id="b11-one-change-too-old", property="C11", edits=[
 ("async_ui_web/src/lists/modeled_list.rs","            self.log.changes.pop_front();\n","            if log_len > 64 {\n                self.log.changes.pop_back();\n            } else {\n                self.log.changes.pop_front();\n            }\n"),
 ], needs="a list of over 128 entries and more changes over its life than half its entries", what="the newest changes get lost and older ones are applied again", demo='''
use async_ui_web::{mount_at, prelude_traits::*, lists::{ListModel, ModeledList}};
use std::rc::Rc;
fn main() {
    let c = container();
    let list = Rc::new(ModeledList::new(|k: &i32| { let k = *k; async move { k.to_string().as_str().render().await; } }));
    let l2 = list.clone();
    let t = mount_at(async move { l2.render().await }, c.clone());
    let mut m = ListModel::from((0..300).collect::<Vec<_>>());
    list.update(&m);
    settle();
    for i in 0..200 {
        m.swap(i % 150, 299 - i % 150);
        list.update(&m);
        settle();
        let want: Vec<String> = m.iter().map(|k| format!("\\"{k}\\"")).collect();
        assert_eq!(shown(&c), format!("main[{}]", want.join(" ")));
    }
    drop(t);
    settle();
}
''')
