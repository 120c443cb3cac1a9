BUGS=[]
def bug(**k): BUGS.append(k)
bug(id="b23-short-log", property="C23", edits=[
 ("async_ui_web/src/lists/modeled_list.rs","        if log_len > max_log_len {","        if log_len > max_log_len && max_log_len > 0 {"),
 ], needs="a list model that stays very short (at most one item) while being edited again and again", what="the log of changes, with a copy of every key, grows forever", demo='''
use async_ui_web::lists::ListModel;
use std::rc::Rc;
fn main() {
    let key = Rc::new(());
    let mut model: ListModel<Rc<()>> = ListModel::new();
    for _ in 0..1000 {
        model.push(key.clone());
        model.pop();
    }
    assert!(Rc::strong_count(&key) < 20, "{} copies of the key are kept", Rc::strong_count(&key));
}
''')
bug(id="b23-cell-wait-dropped-late", property="C23", edits=[
 ("async_ui_internal_utils/src/reactive_cell/until_change.rs","""    fn drop(&mut self) {
        self.target
            .listeners
            .borrow_mut()
            .remove(&self.waker_slot);
    }""","""    fn drop(&mut self) {
        // Once the cell changed, the wait has been woken already.
        if self.last_version == self.target.version.get() {
            self.target
                .listeners
                .borrow_mut()
                .remove(&self.waker_slot);
        }
    }"""),
 ], needs="a wait on a cell that is dropped after the cell changed and before the wait was polled again (for example by a race that another member wins)", what="the waker of the dropped wait stays in the cell forever", demo='''
use async_ui_internal_utils::reactive_cell::ReactiveCell;
use std::sync::Arc;
fn main() {
    let cell = ReactiveCell::new(0);
    let w = Count::new();
    for i in 0..100 {
        let mut u = Box::pin(cell.until_change());
        assert!(poll(u.as_mut(), &w).is_pending());
        *cell.borrow_mut() = i;
        drop(u);
    }
    assert_eq!(w.n(), 100);
    assert!(Arc::strong_count(&w) < 5, "{} wakers of dropped waits are kept", Arc::strong_count(&w));
}
''')
bug(id="b24-classes-first-present", property="C24", edits=[
 ("async_ui_web/src/shortcuts.rs","""        self.class_list()
            .add(&strs_to_js_array(c.into_iter()))
            .unwrap_throw();
    }

    fn del_class(""","""        // Nothing to do when the element has been given these classes before.
        let list = self.class_list();
        let mut c = c.into_iter().peekable();
        if c.peek().map_or(true, |first| list.contains(first)) {
            return;
        }
        list.add(&strs_to_js_array(c)).unwrap_throw();
    }

    fn del_class("""),
 ], needs="adding several classes to an element that has the first of them but not the others", what="the other classes are not added", demo='''
use async_ui_web::{html::Div, prelude_traits::*};
fn main() {
    let d = Div::new();
    d.add_classes(["a", "b"]);
    d.add_classes([]);
    d.add_classes(["c", "a"]);
    assert_eq!(d.element.class_name(), "a b c");
    d.del_class("b");
    d.add_classes(["a", "b"]);
    assert_eq!(d.element.class_name(), "a c b");
}
''')
bug(id="b14-write-unseen", property="C14", edits=[
 ("async_ui_internal_utils/src/reactive_cell/mod.rs","""            cell: self,
            reference: self.data.borrow_mut(),
        }""","""            cell: self,
            reference: self.data.borrow_mut(),
            dirty: false,
        }"""),
 ("async_ui_internal_utils/src/reactive_cell/mod.rs","""            cell: self,
            reference: self.data.try_borrow_mut()?,
        })""","""            cell: self,
            reference: self.data.try_borrow_mut()?,
            dirty: true,
        })"""),
 ("async_ui_internal_utils/src/reactive_cell/borrow_mut.rs","    pub(super) reference: RefMut<'b, T>,","    pub(super) reference: RefMut<'b, T>,\n    pub(super) dirty: bool,"),
 ("async_ui_internal_utils/src/reactive_cell/borrow_mut.rs","        &mut self.reference\n","        self.dirty = true;\n        &mut self.reference\n"),
 ("async_ui_internal_utils/src/reactive_cell/borrow_mut.rs","""        self.cell.version.set(self.cell.version.get() + 1);
        self.cell
            .listeners
            .borrow()
            .iter(&SUBLIST)
            .for_each(Waker::wake_by_ref);""","""        if self.dirty {
            self.cell.version.set(self.cell.version.get() + 1);
            self.cell
                .listeners
                .borrow()
                .iter(&SUBLIST)
                .for_each(Waker::wake_by_ref);
        }"""),
 ], needs="a mutable borrow that never goes through DerefMut (a signal such as ReactiveCell<()>, or interior mutability)", what="the wait does not fire although the cell was mutably borrowed", demo='''
use async_ui_internal_utils::reactive_cell::ReactiveCell;
use std::cell::Cell;
fn main() {
    let cell = ReactiveCell::new(Cell::new(0));
    let w = Count::new();
    let mut u = Box::pin(cell.until_change());
    assert!(poll(u.as_mut(), &w).is_pending());
    cell.borrow_mut().set(1);
    assert_eq!(w.n(), 1);
    assert!(poll(u.as_mut(), &w).is_ready());
}
''')
bug(id="b15-bubbling-alias", property="C15", edits=[
 ("x-bow/src/hash.rs","""        // XOR with a randomly-generated number so that the `bubbling` value
        // is different from the `regular` variant.
        Self(hash ^ 0x33b741db0040f7e)""","""        // The low bits tell the `bubbling` value from the `regular` variant.
        Self(hash)"""),
 ], needs="a path whose hash happens to end in the byte that is its depth (one in 256), a listener on it and a change below it", what="the wait on such a path fires for changes below it that it should not see", demo='''
use x_bow::{PathExt, Store};
fn main() {
    let n = 4000;
    let s = Store::new(vec![vec![0u32; 1]; n]);
    let root = s.build_path();
    for i in 0..n {
        let p = root.index(i);
        let mut u = Box::pin(p.until_change());
        let b = p.until_bubbling_change();
        let w = Count::new();
        assert!(poll_next(u.as_mut(), &w).is_pending());
        *p.index(0).borrow_opt_mut().unwrap() = 2;
        assert!(poll_next(u.as_mut(), &w).is_pending(), "{i}");
        drop(b);
    }
}
''')
