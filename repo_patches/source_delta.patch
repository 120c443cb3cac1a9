From 8648f6cfcf17bab286ab198a4a5aeb314b3bc6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 01/22] fix: do not let descendants detach while a mounted root
 is being dropped

Dropping the Task returned by mount_at (or its future completing) removed the
rendered nodes and then dropped the child future without blocking detachment,
so any combinator or element inside accessed DOM_CONTEXT outside of a poll and
panicked.
---
 async_ui_web_core/src/node_container.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/async_ui_web_core/src/node_container.rs b/async_ui_web_core/src/node_container.rs
index ca5858e..97ec154 100644
--- a/async_ui_web_core/src/node_container.rs
+++ b/async_ui_web_core/src/node_container.rs
@@ -92,6 +92,9 @@ impl<C> PinnedDrop for ContainerNodeFuture<C> {
                 container: this.container,
             }
             .remove_child(ChildPosition::default());
+            // Everything rendered inside has just been removed, so the
+            // descendants (about to be dropped) should not try to detach.
+            this.drop.block_until_drop();
         }
     }
 }
-- 
2.43.0


From 5e553582617bcc7f26cb68d61e90abb4adab4728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 02/22] fix: do not poll the future in a DynamicSlot after it
 completed

---
 async_ui_web/src/components/dynamic_slot.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index 2beb001..c618a44 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -71,11 +71,17 @@ impl<F: Future> DynamicSlot<F> {
     pub async fn render(&self) {
         // this is where the Future lives
         let mut fut_slot: Pin<&mut Option<F>> = pin!(None);
+        // whether the Future in the slot has completed
+        // (it stays in the slot, but must not be polled again)
+        let mut completed = false;
         poll_fn(|cx| {
             {
                 let mut channel = self.channel.borrow_mut();
                 match std::mem::replace(&mut channel.1, Message::NoChange) {
-                    Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
+                    Message::Set(new_fut) => {
+                        fut_slot.set(Some(new_fut));
+                        completed = false;
+                    }
                     Message::Clear => fut_slot.set(None),
                     Message::NoChange => {}
                 }
@@ -84,9 +90,11 @@ impl<F: Future> DynamicSlot<F> {
                     channel.0 = cx.waker().to_owned();
                 }
             }
-            // poll the Future in the slot, if there is one
-            if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
-                let _ = fut.poll(cx);
+            // poll the Future in the slot, if there is one that is still running
+            if !completed {
+                if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
+                    completed = fut.poll(cx).is_ready();
+                }
             }
             Poll::Pending
         })
-- 
2.43.0


From 2aff54f1b8693980d7dbc392a99844538b58e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 03/22] fix: dropping a combinator that was never polled should
 not touch the DOM

---
 async_ui_web_core/src/combinators/common/array.rs | 7 ++++++-
 async_ui_web_core/src/combinators/common/tuple.rs | 5 ++++-
 async_ui_web_core/src/combinators/common/vec.rs   | 5 ++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/async_ui_web_core/src/combinators/common/array.rs b/async_ui_web_core/src/combinators/common/array.rs
index 184ff93..4fbaa79 100644
--- a/async_ui_web_core/src/combinators/common/array.rs
+++ b/async_ui_web_core/src/combinators/common/array.rs
@@ -76,6 +76,9 @@ where
     awake_list_buffer: [usize; N],
     #[pin]
     futures: [Fut; N],
+    /// Whether the combinator has been polled.
+    /// If it hasn't, the subfutures have not rendered anything.
+    polled: bool,
     detachment_blocker: DetachmentBlocker,
 }
 
@@ -95,6 +98,7 @@ where
             // TODO: this is a temporary buffer so it can be MaybeUninit.
             awake_list_buffer: [0; N],
             futures,
+            polled: false,
             detachment_blocker: DetachmentBlocker,
         }
     }
@@ -120,6 +124,7 @@ where
     #[inline]
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
+        *this.polled = true;
 
         if N == 0 && B::PEND_IF_EMPTY {
             return Poll::Pending;
@@ -219,7 +224,7 @@ where
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
 
-        if !this.detachment_blocker.block_until_drop() {
+        if *this.polled && !this.detachment_blocker.block_until_drop() {
             DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
         }
 
diff --git a/async_ui_web_core/src/combinators/common/tuple.rs b/async_ui_web_core/src/combinators/common/tuple.rs
index 3360979..ca3dd41 100644
--- a/async_ui_web_core/src/combinators/common/tuple.rs
+++ b/async_ui_web_core/src/combinators/common/tuple.rs
@@ -74,6 +74,7 @@ macro_rules! impl_common_tuple {
             awake_list_buffer: [usize; $mod_name::LEN],
             #[pin]
             futures: $mod_name::Futures<$($F,)+>,
+            polled: bool,
             detachment_blocker: DetachmentBlocker,
         }
 
@@ -114,6 +115,7 @@ macro_rules! impl_common_tuple {
                     pending: $mod_name::LEN,
                     awake_list_buffer: [0; $mod_name::LEN],
                     futures: $mod_name::Futures {$($F: self.0.$idx,)+},
+                    polled: false,
                     detachment_blocker: DetachmentBlocker
                 }
 			}
@@ -140,6 +142,7 @@ macro_rules! impl_common_tuple {
                 self: Pin<&mut Self>, cx: &mut Context<'_>
             ) -> Poll<Self::Output> {
                 let mut this = self.project();
+                *this.polled = true;
                 assert!(
                     *this.pending > 0,
                     "Futures must not be polled after completing"
@@ -230,7 +233,7 @@ macro_rules! impl_common_tuple {
             fn drop(self: Pin<&mut Self>) {
                 let this = self.project();
 
-                if !this.detachment_blocker.block_until_drop() {
+                if *this.polled && !this.detachment_blocker.block_until_drop() {
                     DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
                 }
 
diff --git a/async_ui_web_core/src/combinators/common/vec.rs b/async_ui_web_core/src/combinators/common/vec.rs
index f4beb08..ba3bb15 100644
--- a/async_ui_web_core/src/combinators/common/vec.rs
+++ b/async_ui_web_core/src/combinators/common/vec.rs
@@ -46,6 +46,7 @@ where
     awake_list_buffer: Vec<usize>,
     #[pin]
     futures: Vec<Fut>,
+    polled: bool,
     detachment_blocker: DetachmentBlocker,
 }
 
@@ -65,6 +66,7 @@ where
             filled: BitVec::repeat(false, len),
             awake_list_buffer: Vec::new(),
             futures,
+            polled: false,
             detachment_blocker: DetachmentBlocker,
         }
     }
@@ -89,6 +91,7 @@ where
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
+        *this.polled = true;
 
         if *this.pending == 0 {
             assert!(
@@ -171,7 +174,7 @@ where
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
 
-        if !this.detachment_blocker.block_until_drop() {
+        if *this.polled && !this.detachment_blocker.block_until_drop() {
             DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
         }
 
-- 
2.43.0


From e21965c2f0c1401a87a9f0b243c32859bc5ae506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 04/22] fix: DynamicList should treat an unknown before key as
 the end of the list

---
 async_ui_web/src/lists/dynamic_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index b51ec0c..2073f61 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -125,7 +125,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let end_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         container
             .insert_before(&end_marker, Some(after))
@@ -215,7 +216,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     {
         let inner = self.inner.borrow();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
         let container = inner.containing_node.get();
-- 
2.43.0


From dc56e4b1a1b7882ac91c394ad689e600ceca9697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 05/22] fix: DynamicList swap of adjacent items and move of an
 item before itself

---
 async_ui_web/src/lists/dynamic_list.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 2073f61..3dd2cca 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -220,6 +220,10 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
+        if to_move.start_marker.is_same_node(Some(after)) {
+            // moving something before itself
+            return;
+        }
         let container = inner.containing_node.get();
         move_nodes_before(
             container,
@@ -249,6 +253,16 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }
         let after_key_1 = item_1.end_marker.next_sibling();
         let container = inner.containing_node.get();
+        if item_2.start_marker.is_same_node(after_key_1.as_ref()) {
+            // item_2 comes right after item_1
+            move_nodes_before(
+                container,
+                &item_2.start_marker,
+                &item_2.end_marker,
+                Some(&item_1.start_marker),
+            );
+            return;
+        }
         move_nodes_before(
             container,
             &item_1.start_marker,
-- 
2.43.0


From 2c7a7994ecc30a90896be2cc80c04b17cc5695d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:00 +0000
Subject: [PATCH 06/22] fix: DynamicList inside an item of another DynamicList
 should follow its item when that list is re-rendered

---
 async_ui_web/src/lists/dynamic_list.rs | 55 +++++++++++---------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 3dd2cca..1d0dcb6 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -12,9 +12,10 @@ use async_ui_web_core::{ContainerNodeFuture, DetachmentBlocker, SiblingNodeFutur
 use wasm_bindgen::UnwrapThrowExt;
 use web_sys::{Comment, DocumentFragment};
 
-#[derive(Clone, Debug)]
 enum ContainingNode {
-    Real(web_sys::Node),
+    /// The list is being rendered.
+    Real,
+    /// The list is not being rendered. Everything in it is kept in this fragment.
     Fake(DocumentFragment),
 }
 
@@ -69,15 +70,6 @@ struct Stored<F: Future> {
     end_marker: web_sys::Node,
 }
 
-impl ContainingNode {
-    fn get(&self) -> &web_sys::Node {
-        match self {
-            ContainingNode::Real(real) => real,
-            ContainingNode::Fake(fake) => fake,
-        }
-    }
-}
-
 impl<'c, K: Eq + Hash, F: Future + 'c> Default for DynamicList<'c, K, F> {
     fn default() -> Self {
         Self::new()
@@ -103,6 +95,14 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }
     }
 
+    /// The node that the list is currently in.
+    ///
+    /// This can change while the list is being rendered:
+    /// if we're in an item of another list, then the nodes of that item can be moved.
+    fn containing_node(&self) -> web_sys::Node {
+        self.list_end_marker.parent_node().unwrap_throw()
+    }
+
     /// Insert a future to render in the list.
     ///
     /// You supply a key along with the future to render.
@@ -121,7 +121,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     /// Time complexity: O(1) in Rust/JS code.
     pub fn insert(&self, key: K, future: F, before: Option<&K>) -> bool {
         let mut inner = self.inner.borrow_mut();
-        let container = inner.containing_node.get();
+        let container = self.containing_node();
         let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let end_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let after = before
@@ -150,7 +150,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }) = inner.items.insert(key, stored)
         {
             drop(task);
-            let container = inner.containing_node.get();
+            let container = self.containing_node();
             let _ = container.remove_child(&start_marker).unwrap_throw();
             let _ = container.remove_child(&end_marker).unwrap_throw();
             true
@@ -177,7 +177,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }) = inner.items.remove(key)
         {
             drop(task);
-            let container = inner.containing_node.get();
+            let container = self.containing_node();
             let _ = container.remove_child(&start_marker).unwrap_throw();
             let _ = container.remove_child(&end_marker).unwrap_throw();
             true
@@ -224,9 +224,9 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             // moving something before itself
             return;
         }
-        let container = inner.containing_node.get();
+        let container = self.containing_node();
         move_nodes_before(
-            container,
+            &container,
             &to_move.start_marker,
             &to_move.end_marker,
             Some(after),
@@ -252,11 +252,11 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             return;
         }
         let after_key_1 = item_1.end_marker.next_sibling();
-        let container = inner.containing_node.get();
+        let container = self.containing_node();
         if item_2.start_marker.is_same_node(after_key_1.as_ref()) {
             // item_2 comes right after item_1
             move_nodes_before(
-                container,
+                &container,
                 &item_2.start_marker,
                 &item_2.end_marker,
                 Some(&item_1.start_marker),
@@ -264,13 +264,13 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             return;
         }
         move_nodes_before(
-            container,
+            &container,
             &item_1.start_marker,
             &item_1.end_marker,
             Some(&item_2.start_marker),
         );
         move_nodes_before(
-            container,
+            &container,
             &item_2.start_marker,
             &item_2.end_marker,
             after_key_1.as_ref(),
@@ -289,12 +289,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     /// Items for which `func` returns `false` will be removed.
     pub fn retain(&self, mut func: impl FnMut(&K) -> bool) {
         let inner = &mut *self.inner.borrow_mut();
-        let DynamicListInner {
-            items,
-            containing_node,
-        } = inner;
-        let container = containing_node.get();
-        items.retain(|key, value| {
+        let container = self.containing_node();
+        inner.items.retain(|key, value| {
             let keep = func(key);
             if !keep {
                 container.remove_child(&value.start_marker).unwrap_throw();
@@ -329,11 +325,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         let stored_fragment;
         {
             let mut inner = self.inner.borrow_mut();
-            match std::mem::replace(
-                &mut inner.containing_node,
-                ContainingNode::Real(real_containing_node.clone()),
-            ) {
-                ContainingNode::Real(_) => panic!("rendering in more than one places not allowed"),
+            match std::mem::replace(&mut inner.containing_node, ContainingNode::Real) {
+                ContainingNode::Real => panic!("rendering in more than one places not allowed"),
                 ContainingNode::Fake(fragment) => {
                     real_containing_node
                         .insert_before(fragment.as_ref(), Some(&self.list_end_marker))
-- 
2.43.0


From bedb95b426504551354170bdc8eea28402f093b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 07/22] fix: keep siblings rendered after a DynamicList in the
 right place relative to it

---
 async_ui_web/src/lists/dynamic_list.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 1d0dcb6..ed7cf8b 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -304,23 +304,17 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     ///
     /// This async method never completes.
     pub async fn render(&self) {
-        let real_containing_node;
+        // A comment node marking where the list is among its siblings.
+        // It stays registered for as long as the list is rendered, so that
+        // siblings rendered later are placed correctly relative to the list.
+        let anchor: web_sys::Node = Comment::new().unwrap_throw().into();
+        let mut anchor_fut = ContainerNodeFuture::new(pending::<()>(), anchor.clone());
         {
             use async_ui_internal_utils::dummy_waker::dummy_waker;
             use std::task::Context;
             let waker = dummy_waker();
             let mut context = Context::from_waker(&waker);
-            let mut insert_marker_fut =
-                ContainerNodeFuture::new(pending::<()>(), self.list_start_marker.clone());
-            let _ = Pin::new(&mut insert_marker_fut).poll(&mut context);
-            real_containing_node = self.list_start_marker.parent_node().unwrap_throw();
-            real_containing_node
-                .insert_before(&self.list_end_marker, Some(&self.list_start_marker))
-                .unwrap_throw();
-            drop(insert_marker_fut);
-            real_containing_node
-                .insert_before(&self.list_start_marker, Some(&self.list_end_marker))
-                .unwrap_throw();
+            let _ = Pin::new(&mut anchor_fut).poll(&mut context);
         }
         let stored_fragment;
         {
@@ -328,8 +322,10 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             match std::mem::replace(&mut inner.containing_node, ContainingNode::Real) {
                 ContainingNode::Real => panic!("rendering in more than one places not allowed"),
                 ContainingNode::Fake(fragment) => {
-                    real_containing_node
-                        .insert_before(fragment.as_ref(), Some(&self.list_end_marker))
+                    anchor
+                        .parent_node()
+                        .unwrap_throw()
+                        .insert_before(fragment.as_ref(), anchor.next_sibling().as_ref())
                         .unwrap_throw();
                     stored_fragment = fragment;
                 }
-- 
2.43.0


From 75333dc2855cf074073988e51406075548dc1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 08/22] fix: let a DynamicList item that removes itself finish
 the poll it is in

---
 async_ui_web/src/lists/dynamic_list.rs | 82 ++++++++++++++++----------
 1 file changed, 50 insertions(+), 32 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index ed7cf8b..2297d6e 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -5,9 +5,11 @@ use std::{
     future::{pending, Future},
     hash::Hash,
     pin::Pin,
+    task::Context,
 };
 
 use async_executor::{LocalExecutor, Task};
+use async_ui_internal_utils::dummy_waker::dummy_waker;
 use async_ui_web_core::{ContainerNodeFuture, DetachmentBlocker, SiblingNodeFuture};
 use wasm_bindgen::UnwrapThrowExt;
 use web_sys::{Comment, DocumentFragment};
@@ -103,6 +105,42 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         self.list_end_marker.parent_node().unwrap_throw()
     }
 
+    /// Cancel the task of an item taken out of the list.
+    ///
+    /// The future of the item is not dropped right away. It may even be running
+    /// right now, and go on to render something more before it is dropped.
+    /// So the markers stay in place until then.
+    fn discard(&self, item: Stored<F>) {
+        let Stored {
+            task,
+            start_marker,
+            end_marker,
+        } = item;
+        let remove_markers = move || {
+            for marker in [&start_marker, &end_marker] {
+                if let Some(container) = marker.parent_node() {
+                    let _ = container.remove_child(marker).unwrap_throw();
+                }
+            }
+        };
+        let mut cancelled = Box::pin(task.cancel());
+        let waker = dummy_waker();
+        if cancelled
+            .as_mut()
+            .poll(&mut Context::from_waker(&waker))
+            .is_ready()
+        {
+            remove_markers();
+        } else {
+            self.executor
+                .spawn(async move {
+                    cancelled.await;
+                    remove_markers();
+                })
+                .detach();
+        }
+    }
+
     /// Insert a future to render in the list.
     ///
     /// You supply a key along with the future to render.
@@ -143,16 +181,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             start_marker,
             end_marker,
         };
-        if let Some(Stored {
-            task,
-            start_marker,
-            end_marker,
-        }) = inner.items.insert(key, stored)
-        {
-            drop(task);
-            let container = self.containing_node();
-            let _ = container.remove_child(&start_marker).unwrap_throw();
-            let _ = container.remove_child(&end_marker).unwrap_throw();
+        if let Some(replaced) = inner.items.insert(key, stored) {
+            self.discard(replaced);
             true
         } else {
             false
@@ -170,16 +200,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         Q: Hash + Eq + ?Sized,
     {
         let mut inner = self.inner.borrow_mut();
-        if let Some(Stored {
-            start_marker,
-            end_marker,
-            task,
-        }) = inner.items.remove(key)
-        {
-            drop(task);
-            let container = self.containing_node();
-            let _ = container.remove_child(&start_marker).unwrap_throw();
-            let _ = container.remove_child(&end_marker).unwrap_throw();
+        if let Some(removed) = inner.items.remove(key) {
+            self.discard(removed);
             true
         } else {
             false
@@ -288,16 +310,14 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     ///
     /// Items for which `func` returns `false` will be removed.
     pub fn retain(&self, mut func: impl FnMut(&K) -> bool) {
-        let inner = &mut *self.inner.borrow_mut();
-        let container = self.containing_node();
-        inner.items.retain(|key, value| {
-            let keep = func(key);
-            if !keep {
-                container.remove_child(&value.start_marker).unwrap_throw();
-                container.remove_child(&value.end_marker).unwrap_throw();
-            }
-            keep
-        });
+        let mut inner = self.inner.borrow_mut();
+        let (retained, removed): (HashMap<_, _>, HashMap<_, _>) = std::mem::take(&mut inner.items)
+            .into_iter()
+            .partition(|(key, _value)| func(key));
+        inner.items = retained;
+        for item in removed.into_values() {
+            self.discard(item);
+        }
     }
 
     /// Render the list here.
@@ -310,8 +330,6 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         let anchor: web_sys::Node = Comment::new().unwrap_throw().into();
         let mut anchor_fut = ContainerNodeFuture::new(pending::<()>(), anchor.clone());
         {
-            use async_ui_internal_utils::dummy_waker::dummy_waker;
-            use std::task::Context;
             let waker = dummy_waker();
             let mut context = Context::from_waker(&waker);
             let _ = Pin::new(&mut anchor_fut).poll(&mut context);
-- 
2.43.0


From 95b6c9405149dd316fe87851ac2c6872fabc6009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 09/22] fix: DiffedList should not position keys relative to
 ones it already moved

---
 async_ui_web/src/lists/diffed_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/lists/diffed_list.rs b/async_ui_web/src/lists/diffed_list.rs
index 7167fbd..b5b638a 100644
--- a/async_ui_web/src/lists/diffed_list.rs
+++ b/async_ui_web/src/lists/diffed_list.rs
@@ -91,6 +91,11 @@ where
         let mut prev_keys_set = prev_keys_list.iter().collect::<HashSet<_>>();
         let mut prev_keys_iter = prev_keys_list.iter().peekable();
         for key in new_keys.iter() {
+            // keys not in the set anymore have already been put in their new places
+            while prev_keys_iter
+                .next_if(|prev| !prev_keys_set.contains(*prev))
+                .is_some()
+            {}
             if prev_keys_set.remove(key) {
                 if prev_keys_iter.next_if_eq(&key).is_some() {
                     continue;
-- 
2.43.0


From 7a40735d2bdd897e8ee33c8c1b8c14b7dc557254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 10/22] fix: Dropdown should not position options relative to
 ones it already moved

---
 async_ui_web/src/components/dropdown.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index b592c80..539247c 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -133,6 +133,11 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         let mut prev_opts_iter = prev_opts_list.iter().peekable();
         let mut new_opts_list = Vec::new();
         for (opt, text) in new_opts {
+            // options not in the set anymore have already been put in their new places
+            while prev_opts_iter
+                .next_if(|prev| !prev_opts_set.contains(*prev))
+                .is_some()
+            {}
             let should_put = if prev_opts_set.remove(&opt) {
                 prev_opts_iter.next_if_eq(&&opt).is_none()
             } else {
-- 
2.43.0


From 3572841b7df49a1d77e3e0bad48b89819fa510bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 11/22] fix: Dropdown value should be None after deselecting

---
 async_ui_web/src/components/dropdown.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index 539247c..1261789 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -111,6 +111,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
                 return;
             }
         }
+        self.inner.borrow_mut().selected = None;
         self.select.set_value("");
     }
     /// Set the options to be displayed in the dropdown.
-- 
2.43.0


From 813950ce23a554406cee5ba3ee6687b4bfa6aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 12/22] fix: remove capturing event listeners when their future
 is dropped

---
 async_ui_web_html/src/event_handling.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_html/src/event_handling.rs b/async_ui_web_html/src/event_handling.rs
index 28c1275..51edaa2 100644
--- a/async_ui_web_html/src/event_handling.rs
+++ b/async_ui_web_html/src/event_handling.rs
@@ -29,6 +29,7 @@ pub struct EventFutureStream<E> {
     closure: Option<Closure<dyn Fn(web_sys::Event)>>,
     shared: Rc<RefCell<(Option<E>, Waker)>>,
     options: Option<AddEventListenerOptions>,
+    capture: bool,
     event_name: Cow<'static, str>,
 }
 
@@ -41,6 +42,7 @@ impl<E: JsCast> EventFutureStream<E> {
             closure: None,
             shared: Rc::new(RefCell::new((None, dummy_waker()))),
             options: None,
+            capture: false,
             event_name,
         }
     }
@@ -53,6 +55,10 @@ impl<E: JsCast> EventFutureStream<E> {
     ///
     /// This needs to be set *before* you first poll the stream.
     pub fn set_capture(&mut self, capture: bool) {
+        if self.closure.is_none() {
+            // Needed again when removing the listener.
+            self.capture = capture;
+        }
         self.options
             .get_or_insert_with(AddEventListenerOptions::new)
             .capture(capture);
@@ -160,9 +166,10 @@ impl<E> Drop for EventFutureStream<E> {
     fn drop(&mut self) {
         if let Some(callback) = self.closure.take() {
             self.target
-                .remove_event_listener_with_callback(
+                .remove_event_listener_with_callback_and_bool(
                     &self.event_name,
                     callback.as_ref().unchecked_ref(),
+                    self.capture,
                 )
                 .unwrap_throw();
         }
-- 
2.43.0


From b657b7a47ed2482cc169fa46e6a895e628a44968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 13/22] fix: run tasks spawned on the executor before anything
 is mounted

---
 async_ui_web/src/executor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/async_ui_web/src/executor.rs b/async_ui_web/src/executor.rs
index 85ffaac..2cee808 100644
--- a/async_ui_web/src/executor.rs
+++ b/async_ui_web/src/executor.rs
@@ -6,7 +6,7 @@
 use std::{cell::OnceCell, future::pending};
 
 use async_executor::LocalExecutor;
-use async_ui_web_core::executor::set_executor_future;
+use async_ui_web_core::executor::{schedule, set_executor_future};
 
 thread_local! {
     static EXECUTOR: OnceCell<&'static LocalExecutor<'static>> = OnceCell::new();
@@ -28,6 +28,8 @@ pub fn get_executor() -> &'static LocalExecutor<'static> {
         *cell.get_or_init(|| {
             let exe = Box::leak(Box::new(LocalExecutor::new()));
             set_executor_future(Box::new(exe.run(pending())));
+            // Until its first poll the executor cannot be woken by its tasks.
+            schedule();
             exe
         })
     })
-- 
2.43.0


From fba5a94fb55f71631b26da801868ae1faf80e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 14/22] fix: do not poll the root future again after it
 completed

---
 async_ui_web_core/src/executor.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/async_ui_web_core/src/executor.rs b/async_ui_web_core/src/executor.rs
index 2ae68c2..d2bb20f 100644
--- a/async_ui_web_core/src/executor.rs
+++ b/async_ui_web_core/src/executor.rs
@@ -6,7 +6,7 @@ use std::{
     cell::{Cell, RefCell},
     future::Future,
     pin::Pin,
-    task::{Context, RawWaker, RawWakerVTable, Waker},
+    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
 };
 
 use wasm_bindgen::{closure::Closure, JsCast, UnwrapThrowExt};
@@ -53,8 +53,14 @@ pub fn run_now() {
         if !was_active {
             while exe.scheduled.replace(false) {
                 let mut cx = Context::from_waker(&exe.waker);
-                if let Some(fu) = exe.future.borrow_mut().as_mut() {
-                    let _ = fu.as_mut().poll(&mut cx);
+                let poll = match exe.future.borrow_mut().as_mut() {
+                    Some(fu) => fu.as_mut().poll(&mut cx),
+                    None => Poll::Pending,
+                };
+                if poll.is_ready() {
+                    // A completed future must not be polled again.
+                    let completed = exe.future.borrow_mut().take();
+                    drop(completed);
                 }
             }
             exe.active.set(false);
-- 
2.43.0


From 6ffc8da924410507b4b73f2432887aa4750b69f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 15/22] fix: VirtualizedList should show the right items after
 the number of items changed

---
 async_ui_web/src/lists/virtualized_list.rs | 32 ++++++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 507a6f1..5249059 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -8,7 +8,7 @@ use std::{
 
 use async_ui_internal_utils::reactive_cell::ReactiveCell;
 use async_ui_web_core::{combinators::join, ContainerNodeFuture};
-use futures_lite::{Future, StreamExt};
+use futures_lite::{future::yield_now, Future, StreamExt};
 use wasm_bindgen::{prelude::Closure, JsCast, JsValue, UnwrapThrowExt};
 use web_sys::{Element, HtmlElement, IntersectionObserver, IntersectionObserverInit};
 
@@ -56,6 +56,8 @@ struct State<Updater> {
     renderer: Updater,
     range: Range<usize>,
     num_items: usize,
+    /// What `num_items` was when the range and spacers were last updated.
+    arranged_num_items: usize,
 }
 
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
@@ -103,6 +105,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             renderer,
             range: 0..0,
             num_items: 0,
+            arranged_num_items: 0,
         };
         let signal = Rc::new(ReactiveCell::new(()));
         let signal_cloned = signal.clone();
@@ -128,7 +131,9 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
     /// How many items does the list have?
     pub fn set_num_items(&self, num: usize) {
         self.state.borrow_mut().num_items = num;
-        self.update_visible();
+        // The renderer will update the list. It does so only after having
+        // rendered pending changes, so that it measures up-to-date items.
+        self.signal.borrow_mut();
     }
     #[doc(hidden)]
     pub fn force_update(&self, _range: impl RangeBounds<usize>) {
@@ -153,7 +158,6 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
                 &[spf, spb],
                 self.wake_closure.as_ref().unchecked_ref(),
             );
-            self.update_visible();
             self.root
                 .add_event_listener_with_callback(
                     "scroll",
@@ -162,13 +166,19 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
                 .unwrap_throw();
             let mut uc = self.signal.until_change();
             loop {
-                uc.next().await;
-                self.update_visible();
+                if self.update_visible() {
+                    // Let the items be rendered, then check again.
+                    yield_now().await;
+                } else {
+                    uc.next().await;
+                }
             }
         }))
         .await;
     }
-    fn update_visible(&self) {
+    /// Returns whether the update was based on a guess of the item size, so that
+    /// another update is needed once items have been rendered.
+    fn update_visible(&self) -> bool {
         fn top_bottom(rect: &web_sys::DomRect, direction: Direction) -> (f64, f64) {
             match direction {
                 Direction::Vertical => (rect.top(), rect.bottom()),
@@ -184,10 +194,11 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let root_size = rect_root.1 - rect_root.0;
         let tres_size = root_size * 1.25;
         let pad_size = root_size * 2.0;
-        if (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
+        if state.arranged_num_items == state.num_items
+            && (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
             && (rect_b.0 - tres_size > rect_root.1 || state.range.end == state.num_items)
         {
-            return;
+            return false;
         }
 
         let num_visible = state.range.len();
@@ -196,7 +207,8 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         } else {
             root_size / 4.0
         };
-        let new_start = ((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize;
+        let new_start = (((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize)
+            .min(state.num_items);
         let new_end =
             (((rect_root.1 + pad_size - rect_f.0) / avg_size).ceil() as usize).min(state.num_items);
 
@@ -226,6 +238,8 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             self.list.insert(to_add, (state.renderer)(to_add), None);
         }
         state.range = new_start..new_end;
+        state.arranged_num_items = state.num_items;
+        num_visible == 0 && new_start < new_end
     }
 }
 
-- 
2.43.0


From 79035a73386a2744d49197a11e030649fe50341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 16/22] fix: ReactiveCell::until_change should report changes
 made before its first poll

---
 .../src/reactive_cell/until_change.rs             | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/async_ui_internal_utils/src/reactive_cell/until_change.rs b/async_ui_internal_utils/src/reactive_cell/until_change.rs
index 36d5471..8c1e389 100644
--- a/async_ui_internal_utils/src/reactive_cell/until_change.rs
+++ b/async_ui_internal_utils/src/reactive_cell/until_change.rs
@@ -8,10 +8,11 @@ use super::{ReactiveCell, SUBLIST};
 
 impl<T> ReactiveCell<T> {
     pub fn until_change(&self) -> UntilChangeFuture<'_, T> {
+        let mut bm = self.inner.borrow_mut();
         UntilChangeFuture {
             target: self,
-            last_version: 0,
-            waker_slot: self.inner.borrow_mut().listeners.add(&SUBLIST),
+            last_version: bm.version,
+            waker_slot: bm.listeners.add(&SUBLIST),
         }
     }
 }
@@ -32,13 +33,9 @@ impl<'a, T> Stream for UntilChangeFuture<'a, T> {
         let this = self.get_mut();
         let mut bm = this.target.inner.borrow_mut();
         let mut res = Poll::Pending;
-        match this.last_version {
-            0 => this.last_version = bm.version,
-            lv if lv < bm.version => {
-                res = Poll::Ready(Some(()));
-                this.last_version = bm.version;
-            }
-            _ => {}
+        if this.last_version < bm.version {
+            res = Poll::Ready(Some(()));
+            this.last_version = bm.version;
         }
         bm.listeners.update(&this.waker_slot, cx.waker());
         res
-- 
2.43.0


From 9e697d91b3729965997966ebec06925b3fc5f286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 17/22] fix: until_change should report changes made before its
 first poll

---
 x-bow/src/until_change.rs | 62 +++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/x-bow/src/until_change.rs b/x-bow/src/until_change.rs
index c24da10..35ddd4a 100644
--- a/x-bow/src/until_change.rs
+++ b/x-bow/src/until_change.rs
@@ -16,45 +16,55 @@ use crate::{
 /// or [until_bubbling_change][crate::PathExt::until_bubbling_change].
 pub struct UntilChange<'a> {
     store: &'a RefCell<StoreWakers>,
+    /// Sum of the versions of all the entries we listen to.
     last_version: u64,
+    polled: bool,
     slots: Vec<(WakerHashEntry, WakerSlot)>,
 }
 
 impl<'a> UntilChange<'a> {
     pub(crate) fn new<M: Path + ?Sized>(store: &'a RefCell<StoreWakers>, mapper: &M) -> Self {
-        Self {
-            slots: {
-                let mut store = store.borrow_mut();
-                let mut slots = Vec::new();
-                let mut visitor = HashVisitor::new(HashVisitorBehavior::BuildRegularListeners {
-                    wakers: &mut store,
-                    notifiers_list: &mut slots,
-                });
-                mapper.visit_hashes(&mut visitor);
-                slots
-            },
-            store,
-            last_version: 0,
+        let mut slots = Vec::new();
+        {
+            let mut store = store.borrow_mut();
+            let mut visitor = HashVisitor::new(HashVisitorBehavior::BuildRegularListeners {
+                wakers: &mut store,
+                notifiers_list: &mut slots,
+            });
+            mapper.visit_hashes(&mut visitor);
         }
+        Self::with_slots(store, slots)
     }
     pub(crate) fn new_bubbling<M: Path + ?Sized>(
         store: &'a RefCell<StoreWakers>,
         mapper: &M,
     ) -> Self {
+        let mut visitor = HashVisitor::new(HashVisitorBehavior::GetHash {});
+        mapper.visit_hashes(&mut visitor);
+        let hash = visitor.to_bubbling_key();
+        let slot = store.borrow_mut().get_entry(hash).add_waker_slot();
+        Self::with_slots(store, vec![(hash, slot)])
+    }
+    fn with_slots(
+        store: &'a RefCell<StoreWakers>,
+        slots: Vec<(WakerHashEntry, WakerSlot)>,
+    ) -> Self {
+        // Changes count from now on, not from the first poll.
+        let last_version = {
+            let mut store = store.borrow_mut();
+            slots.iter().fold(0, |ver, (hash, _)| {
+                ver + store.get_entry(*hash).get_version()
+            })
+        };
         Self {
-            slots: {
-                let mut visitor = HashVisitor::new(HashVisitorBehavior::GetHash {});
-                mapper.visit_hashes(&mut visitor);
-                let hash = visitor.to_bubbling_key();
-                let slot = store.borrow_mut().get_entry(hash).add_waker_slot();
-                vec![(hash, slot)]
-            },
             store,
-            last_version: 0,
+            last_version,
+            polled: false,
+            slots,
         }
     }
     pub(crate) fn has_been_polled(&self) -> bool {
-        self.last_version > 0
+        self.polled
     }
 }
 
@@ -73,9 +83,11 @@ impl<'a> Stream for UntilChange<'a> {
             entry.set_waker(slot, new_waker);
             ver + entry.get_version()
         });
-        match std::mem::replace(&mut this.last_version, new_version) {
-            lv @ 1.. if lv != new_version => Poll::Ready(Some(())),
-            _ => Poll::Pending,
+        this.polled = true;
+        if std::mem::replace(&mut this.last_version, new_version) != new_version {
+            Poll::Ready(Some(()))
+        } else {
+            Poll::Pending
         }
     }
 }
-- 
2.43.0


From 5d9dec536d643db5d71b4a282a612362330597b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:53 +0000
Subject: [PATCH 18/22] fix: bind_for_each should store the last value of an
 incoming stream that ends

---
 x-bow/src/path_ext/bind_for_each.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/x-bow/src/path_ext/bind_for_each.rs b/x-bow/src/path_ext/bind_for_each.rs
index 70020e0..f7d9163 100644
--- a/x-bow/src/path_ext/bind_for_each.rs
+++ b/x-bow/src/path_ext/bind_for_each.rs
@@ -39,17 +39,15 @@ where
         let mut this = self.project();
 
         let mut val = None;
-        loop {
+        let incoming_ended = loop {
             match this.incoming.as_mut().poll_next(cx) {
                 Poll::Ready(Some(v)) => {
                     val = Some(v);
                 }
-                Poll::Ready(None) => {
-                    return Poll::Ready(());
-                }
-                Poll::Pending => break,
+                Poll::Ready(None) => break true,
+                Poll::Pending => break false,
             }
-        }
+        };
         if let Some(val) = val {
             if let Some(bm) = this.path.borrow_opt_mut().as_deref_mut() {
                 *bm = val;
@@ -58,6 +56,9 @@ where
             }
             let _ = this.until_change.as_mut().poll_next(cx);
         }
+        if incoming_ended {
+            return Poll::Ready(());
+        }
 
         let first = !this.until_change.has_been_polled();
         if first | this.until_change.as_mut().poll_next(cx).is_ready() {
-- 
2.43.0


From 8a75841978b2bdd737fb94ea7953f0c70cada6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:53 +0000
Subject: [PATCH 19/22] fix: for_each_async should not hold the store borrowed
 while dropping the old future

---
 x-bow/src/path_ext/for_each_async.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/x-bow/src/path_ext/for_each_async.rs b/x-bow/src/path_ext/for_each_async.rs
index 73414a1..5e0c26d 100644
--- a/x-bow/src/path_ext/for_each_async.rs
+++ b/x-bow/src/path_ext/for_each_async.rs
@@ -41,9 +41,14 @@ impl<'a, P: Path + ?Sized, F: Future<Output = ()>, C: FnMut(&P::Out) -> F + Unpi
         let mut this = self.project();
         let first = !this.until_change.has_been_polled();
         if first | Pin::new(this.until_change).poll_next(cx).is_ready() {
-            if let Some(data) = this.path.borrow_opt().as_deref() {
-                let fut = (this.closure)(data);
-                this.future.set(Some(fut));
+            let new_future = this
+                .path
+                .borrow_opt()
+                .as_deref()
+                .map(|data| (this.closure)(data));
+            // The old future is dropped here, when the store isn't borrowed anymore.
+            if new_future.is_some() {
+                this.future.set(new_future);
             }
         }
         if let Some(fut) = this.future.as_mut().as_pin_mut() {
-- 
2.43.0


From 080f02bdef20b3ad329ea3002933ce27be25bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 20/22] fix: waits on a ReactiveCell can be made, polled and
 dropped while it is borrowed

---
 .../src/reactive_cell/borrow_mut.rs           | 14 ++++---
 .../src/reactive_cell/mod.rs                  | 41 +++++++++----------
 .../src/reactive_cell/until_change.rs         | 19 +++++----
 3 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/async_ui_internal_utils/src/reactive_cell/borrow_mut.rs b/async_ui_internal_utils/src/reactive_cell/borrow_mut.rs
index d2b394e..78c90f5 100644
--- a/async_ui_internal_utils/src/reactive_cell/borrow_mut.rs
+++ b/async_ui_internal_utils/src/reactive_cell/borrow_mut.rs
@@ -4,30 +4,32 @@ use std::{
     task::Waker,
 };
 
-use super::{Inner, SUBLIST};
+use super::{ReactiveCell, SUBLIST};
 
 pub struct ReactiveCellBorrowMut<'b, T> {
-    pub(super) reference: RefMut<'b, Inner<T>>,
+    pub(super) cell: &'b ReactiveCell<T>,
+    pub(super) reference: RefMut<'b, T>,
 }
 
 impl<'b, T> DerefMut for ReactiveCellBorrowMut<'b, T> {
     fn deref_mut(&mut self) -> &mut Self::Target {
-        &mut self.reference.data
+        &mut self.reference
     }
 }
 
 impl<'b, T> Deref for ReactiveCellBorrowMut<'b, T> {
     type Target = T;
     fn deref(&self) -> &Self::Target {
-        &self.reference.data
+        &self.reference
     }
 }
 
 impl<'b, T> Drop for ReactiveCellBorrowMut<'b, T> {
     fn drop(&mut self) {
-        self.reference.version += 1;
-        self.reference
+        self.cell.version.set(self.cell.version.get() + 1);
+        self.cell
             .listeners
+            .borrow()
             .iter(&SUBLIST)
             .for_each(Waker::wake_by_ref);
     }
diff --git a/async_ui_internal_utils/src/reactive_cell/mod.rs b/async_ui_internal_utils/src/reactive_cell/mod.rs
index a96ae56..63e08ca 100644
--- a/async_ui_internal_utils/src/reactive_cell/mod.rs
+++ b/async_ui_internal_utils/src/reactive_cell/mod.rs
@@ -2,7 +2,7 @@ mod borrow_mut;
 mod for_each;
 mod until_change;
 use std::{
-    cell::{BorrowError, BorrowMutError, Ref, RefCell},
+    cell::{BorrowError, BorrowMutError, Cell, Ref, RefCell},
     fmt::Debug,
 };
 
@@ -36,14 +36,18 @@ use self::borrow_mut::ReactiveCellBorrowMut;
 /// # };
 /// ```
 pub struct ReactiveCell<T> {
-    inner: RefCell<Inner<T>>,
+    data: RefCell<T>,
+    /// Kept apart from the data, so that waits can be made, polled and dropped
+    /// while the data is borrowed.
+    listeners: RefCell<WakersArena>,
+    version: Cell<u64>,
 }
 
 impl<T: Debug> Debug for ReactiveCell<T> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let mut d = f.debug_tuple("ReactiveCell");
-        match self.inner.try_borrow() {
-            Ok(inside) => d.field(&inside.data).finish(),
+        match self.data.try_borrow() {
+            Ok(inside) => d.field(&*inside).finish(),
             Err(_) => {
                 // https://doc.rust-lang.org/src/core/fmt/mod.rs.html#2618
                 struct BorrowedPlaceholder;
@@ -60,7 +64,7 @@ impl<T: Debug> Debug for ReactiveCell<T> {
 
 impl<T: Clone> Clone for ReactiveCell<T> {
     fn clone(&self) -> Self {
-        Self::new(self.inner.borrow().data.clone())
+        Self::new(self.data.borrow().clone())
     }
 }
 
@@ -70,39 +74,34 @@ impl<T: Default> Default for ReactiveCell<T> {
     }
 }
 
-struct Inner<T> {
-    data: T,
-    listeners: WakersArena,
-    version: u64,
-}
-
 const SUBLIST: WakersSublist = WakersSublist(1);
 
 impl<T> ReactiveCell<T> {
     pub fn new(data: T) -> Self {
         let mut listeners = WakersArena::new();
         listeners.add_sublist();
-        let inner = RefCell::new(Inner {
-            data,
-            listeners,
-            version: 1,
-        });
-        Self { inner }
+        Self {
+            data: RefCell::new(data),
+            listeners: RefCell::new(listeners),
+            version: Cell::new(1),
+        }
     }
     pub fn borrow(&'_ self) -> Ref<'_, T> {
-        Ref::map(self.inner.borrow(), |r| &r.data)
+        self.data.borrow()
     }
     pub fn borrow_mut(&'_ self) -> ReactiveCellBorrowMut<'_, T> {
         ReactiveCellBorrowMut {
-            reference: self.inner.borrow_mut(),
+            cell: self,
+            reference: self.data.borrow_mut(),
         }
     }
     pub fn try_borrow(&'_ self) -> Result<Ref<'_, T>, BorrowError> {
-        Ok(Ref::map(self.inner.try_borrow()?, |r| &r.data))
+        self.data.try_borrow()
     }
     pub fn try_borrow_mut(&'_ self) -> Result<ReactiveCellBorrowMut<'_, T>, BorrowMutError> {
         Ok(ReactiveCellBorrowMut {
-            reference: self.inner.try_borrow_mut()?,
+            cell: self,
+            reference: self.data.try_borrow_mut()?,
         })
     }
 }
diff --git a/async_ui_internal_utils/src/reactive_cell/until_change.rs b/async_ui_internal_utils/src/reactive_cell/until_change.rs
index 8c1e389..c9b23b8 100644
--- a/async_ui_internal_utils/src/reactive_cell/until_change.rs
+++ b/async_ui_internal_utils/src/reactive_cell/until_change.rs
@@ -8,11 +8,10 @@ use super::{ReactiveCell, SUBLIST};
 
 impl<T> ReactiveCell<T> {
     pub fn until_change(&self) -> UntilChangeFuture<'_, T> {
-        let mut bm = self.inner.borrow_mut();
         UntilChangeFuture {
             target: self,
-            last_version: bm.version,
-            waker_slot: bm.listeners.add(&SUBLIST),
+            last_version: self.version.get(),
+            waker_slot: self.listeners.borrow_mut().add(&SUBLIST),
         }
     }
 }
@@ -31,13 +30,16 @@ impl<'a, T> Stream for UntilChangeFuture<'a, T> {
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<Option<Self::Item>> {
         let this = self.get_mut();
-        let mut bm = this.target.inner.borrow_mut();
         let mut res = Poll::Pending;
-        if this.last_version < bm.version {
+        let version = this.target.version.get();
+        if this.last_version < version {
             res = Poll::Ready(Some(()));
-            this.last_version = bm.version;
+            this.last_version = version;
         }
-        bm.listeners.update(&this.waker_slot, cx.waker());
+        this.target
+            .listeners
+            .borrow_mut()
+            .update(&this.waker_slot, cx.waker());
         res
     }
 }
@@ -55,9 +57,8 @@ impl<'a, T> Future for UntilChangeFuture<'a, T> {
 impl<'a, T> Drop for UntilChangeFuture<'a, T> {
     fn drop(&mut self) {
         self.target
-            .inner
-            .borrow_mut()
             .listeners
+            .borrow_mut()
             .remove(&self.waker_slot);
     }
 }
-- 
2.43.0


From 86c4362df84a86776ebbdac8336ff1e87e1f5463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 21/22] fix: a future being dropped by a DynamicSlot may use
 that slot

---
 async_ui_web/src/components/dynamic_slot.rs | 39 +++++++++++++--------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index c618a44..5d4dcdd 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -75,20 +75,23 @@ impl<F: Future> DynamicSlot<F> {
         // (it stays in the slot, but must not be polled again)
         let mut completed = false;
         poll_fn(|cx| {
-            {
+            let message = {
                 let mut channel = self.channel.borrow_mut();
-                match std::mem::replace(&mut channel.1, Message::NoChange) {
-                    Message::Set(new_fut) => {
-                        fut_slot.set(Some(new_fut));
-                        completed = false;
-                    }
-                    Message::Clear => fut_slot.set(None),
-                    Message::NoChange => {}
-                }
                 // if the Waker in the channel is outdated, update it
                 if !channel.0.will_wake(cx.waker()) {
                     channel.0 = cx.waker().to_owned();
                 }
+                std::mem::replace(&mut channel.1, Message::NoChange)
+            };
+            // The old Future is dropped here, and may use this slot while being
+            // dropped, so the channel must not be borrowed.
+            match message {
+                Message::Set(new_fut) => {
+                    fut_slot.set(Some(new_fut));
+                    completed = false;
+                }
+                Message::Clear => fut_slot.set(None),
+                Message::NoChange => {}
             }
             // poll the Future in the slot, if there is one that is still running
             if !completed {
@@ -103,15 +106,21 @@ impl<F: Future> DynamicSlot<F> {
 
     /// Set the future to render in the slot, dropping the previous one.
     pub fn set_future(&self, fut: F) {
-        let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Set(fut);
-        channel.0.wake_by_ref();
+        self.send(Message::Set(fut));
     }
 
     /// Remove the future currently rendering in the slot (if any).
     pub fn clear_future(&self) {
-        let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Clear;
-        channel.0.wake_by_ref();
+        self.send(Message::Clear);
+    }
+
+    fn send(&self, message: Message<F>) {
+        let _unsent = {
+            let mut channel = self.channel.borrow_mut();
+            channel.0.wake_by_ref();
+            std::mem::replace(&mut channel.1, message)
+        };
+        // A Future that was never rendered may be dropped here. It may use this
+        // slot while being dropped, so the channel must not be borrowed.
     }
 }
-- 
2.43.0


From e84b3bdbe1fa11cbc1580fefaa7bf5d1ea81f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:30 +0000
Subject: [PATCH 22/22] fix: Dropdown should deselect even if it offers an
 option with a blank label

---
 async_ui_web/src/components/dropdown.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index 1261789..12bbab0 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -112,7 +112,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
             }
         }
         self.inner.borrow_mut().selected = None;
-        self.select.set_value("");
+        self.select.set_selected_index(-1);
     }
     /// Set the options to be displayed in the dropdown.
     ///
@@ -169,7 +169,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         if let Some(sel) = selected.as_ref().and_then(|k| map.get(k)) {
             sel.set_selected(true);
         } else {
-            self.select.set_value("");
+            self.select.set_selected_index(-1);
         }
     }
     pub async fn render(&self) {
-- 
2.43.0

