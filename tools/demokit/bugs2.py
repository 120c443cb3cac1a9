BUGS=[]
def bug(**k): BUGS.append(k)
bug(id="b09-replace-before-itself", property="C09", edits=[
 ("async_ui_web/src/lists/dynamic_list.rs","""        let container = self.containing_node();
        let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();""","""        let container = self.containing_node();
        // cancel the old future before starting the new one
        let replaced = match inner.items.remove(&key) {
            Some(old) => {
                self.discard(old);
                true
            }
            None => false,
        };
        let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();"""),
 ("async_ui_web/src/lists/dynamic_list.rs","""        if let Some(replaced) = inner.items.insert(key, stored) {
            self.discard(replaced);
            true
        } else {
            false
        }
    }

    /// Remove the future""","""        inner.items.insert(key, stored);
        replaced
    }

    /// Remove the future"""),
 ], needs="an insert of a key that is already in the list, before itself (to replace it in place)", what="the replacement goes to the end of the list", demo='''
use async_ui_web::{mount_at, prelude_traits::*, lists::DynamicList};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
type F = Pin<Box<dyn Future<Output = ()>>>;
fn txt(s: &'static str) -> F { Box::pin(async move { s.render().await; }) }
fn main() {
    let c = container();
    let list: Rc<DynamicList<i32, F>> = Rc::new(DynamicList::new());
    let l2 = list.clone();
    let t = mount_at(async move { l2.render().await }, c.clone());
    list.insert(1, txt("a"), None);
    list.insert(2, txt("b"), None);
    list.insert(3, txt("c"), None);
    settle();
    assert_eq!(shown(&c), r#"main["a" "b" "c"]"#);
    assert!(list.insert(2, txt("B"), Some(&2)));
    settle();
    assert_eq!(shown(&c), r#"main["a" "B" "c"]"#);
    drop(t);
    settle();
}
''')
bug(id="b13-jump-back", property="C13", edits=[
 ("async_ui_web/src/lists/virtualized_list.rs","        for to_add in new_start..new_end.min(state.range.start) {","        for to_add in new_start..state.range.start {"),
 ], needs="scrolling back by more than a window at once", what="items outside of the window are rendered and never removed; the list shows a wrong sequence", demo='''
use async_ui_web::{html::Div, lists::VirtualizedList, mount_at, prelude_traits::*};
use std::cell::Cell;
use std::rc::Rc;
use wasm_bindgen::{sim, JsCast};
fn main() {
    let c = container();
    let root: &'static Div = Box::leak(Box::new(Div::new()));
    let (sf, sb) = (Div::new(), Div::new());
    let (rid, fid, bid) = (dom_id(&root.element), dom_id(&sf.element), dom_id(&sb.element));
    let scroll = Rc::new(Cell::new(0.0));
    // every item is 20 high, the viewport 100
    let px = |id: u32| sim::with(|w| {
        let st = w.objs[id as usize].props.get("__style").and_then(|s| s.obj_id());
        st.and_then(|st| w.objs[st as usize].props.get("block-size").and_then(|v| v.as_string())).and_then(|s| s.trim_end_matches("px").parse::<f64>().ok()).unwrap_or(0.0)
    });
    let s2 = scroll.clone();
    sim::with(|w| w.layout = Some(Rc::new(move |id| {
        let mk = |a: f64, len: f64| sim::Rect { left: 0.0, top: a, width: 50.0, height: len };
        if id == rid { return mk(0.0, 100.0); }
        let mut y = -s2.get();
        for k in sim::with(|w| w.children_of(rid)) {
            let e = if k == fid || k == bid { px(k) } else if sim::with(|w| matches!(w.node(k).map(|n| n.ty), Some(sim::NodeType::Element))) { 20.0 } else { 0.0 };
            if k == id { return mk(y, e); }
            y += e;
        }
        sim::Rect::default()
    })));
    let list = Rc::new(VirtualizedList::new(&root.element, (*sf.element).clone().unchecked_into(), (*sb.element).clone().unchecked_into(), |i: usize| async move { Div::new().render(i.to_string().as_str().render()).await }));
    let l2 = list.clone();
    let t = mount_at(async move { root.render(l2.render()).await }, c.clone());
    list.set_num_items(1000);
    settle();
    let shown_items = || -> Vec<usize> { sim::with(|w| w.children_of(rid)).into_iter().filter(|k| *k != fid && *k != bid).filter_map(|k| sim::with(|w| w.text_content(k)).parse().ok()).collect() };
    let go = |y: f64| {
        scroll.set(y);
        for _ in 0..5 {
            let ev = sim::new_event("Event", "scroll", false, false);
            sim::user_dispatch(rid, &ev);
            settle();
        }
        let v = shown_items();
        for p in v.windows(2) { assert_eq!(p[0] + 1, p[1], "at {y}: {v:?}"); }
        let top = (y / 20.0) as usize;
        assert!(v.contains(&top) && v.contains(&(top + 4)), "at {y}: {v:?}");
        assert!(v.len() < 80, "at {y}: {} items", v.len());
    };
    go(0.0);
    go(10000.0);
    go(2000.0);
    go(1900.0);
    go(0.0);
    drop(t);
    settle();
}
''')
bug(id="b14-wakes-one", property="C14", edits=[
 ("async_ui_internal_utils/src/reactive_cell/borrow_mut.rs","""            .for_each(Waker::wake_by_ref);""","""            .take(if self.version_is_new() { usize::MAX } else { 1 })
            .for_each(Waker::wake_by_ref);"""),
 ], needs="", what="", demo="")
BUGS.pop()
bug(id="b16-version-wraps", property="C16", edits=[
 ("x-bow/src/wakers.rs","    version: u64,","    version: u8,"),
 ("x-bow/src/wakers.rs","        self.entry.version\n","        self.entry.version as u64\n"),
 ("x-bow/src/wakers.rs","            entry.version += 1;","            entry.version = entry.version.wrapping_add(1);"),
 ], needs="exactly 256 (or a multiple) changes between two polls of a bubbling listener", what="the changes are not reported", demo='''
use x_bow::{PathExt, PathExtGuaranteed, Store};
fn main() {
    for n in [1usize, 255, 256, 257, 512] {
        let s = Store::new(vec![vec![0u32]]);
        let root = s.build_path();
        let p = root.index(0);
        let mut u = Box::pin(p.until_bubbling_change());
        let w = Count::new();
        assert!(poll_next(u.as_mut(), &w).is_pending());
        for i in 0..n { *root.index(0).index(0).borrow_opt_mut().unwrap() = i as u32; }
        assert!(poll_next(u.as_mut(), &w).is_ready(), "{n} changes are not reported");
        assert!(poll_next(u.as_mut(), &w).is_pending());
        let _ = root.borrow();
    }
}
''')
bug(id="b19-index-u32", property="C19", edits=[
 ("x-bow/src/impls/stdlib/vec.rs","            .and_then(|r| Ref::filter_map(r, |s| s.get(self.index)).ok())","            .and_then(|r| Ref::filter_map(r, |s| s.get(self.index as u16 as usize)).ok())"),
 ("x-bow/src/impls/stdlib/vec.rs","            .and_then(|r| RefMut::filter_map(r, |s| s.get_mut(self.index)).ok())","            .and_then(|r| RefMut::filter_map(r, |s| s.get_mut(self.index as u16 as usize)).ok())"),
 ], needs="a path to an index past 65535 of a shorter list", what="the path names data that is elsewhere instead of nothing", demo='''
use x_bow::{PathExt, Store};
fn main() {
    let s = Store::new(vec![1u32, 2, 3]);
    let root = s.build_path();
    assert_eq!(root.index(2).get_opt(), Some(3));
    assert_eq!(root.index(3).get_opt(), None);
    assert_eq!(root.index(65536).get_opt(), None);
    assert!(root.index(65537).set_opt(9).is_err());
    assert_eq!(root.index(1).get_opt(), Some(2));
}
''')
bug(id="b22-same-data", property="C22", edits=[
 ("async_ui_internal_utils/src/wakers_arena.rs","        if !target.will_wake(waker) {","        if !std::ptr::eq(target.data(), waker.data()) {"),
 ], needs="two wakers with the same data pointer and different functions (wakers without data, such as the root waker of the executor and the dummy waker a slot starts with)", what="the slot keeps its old waker", demo='''
use async_ui_internal_utils::wakers_arena::WakersArena;
use std::cell::Cell;
use std::task::{RawWaker, RawWakerVTable, Waker};
thread_local!(static N: Cell<u32> = Cell::new(0));
fn raw() -> RawWaker {
    RawWaker::new(std::ptr::null(), &RawWakerVTable::new(|_| raw(), |_| N.with(|n| n.set(n.get() + 1)), |_| N.with(|n| n.set(n.get() + 1)), |_| {}))
}
fn main() {
    let mut a = WakersArena::new();
    let l = a.add_sublist();
    let s = a.add(&l);
    a.update(&s, &unsafe { Waker::from_raw(raw()) });
    for w in a.iter(&l) { w.wake_by_ref(); }
    assert_eq!(N.with(|n| n.get()), 1);
    a.remove(&s);
    assert!(a.remove_sublist_if_empty(&l));
}
''')
