From 720aae5d64635f61c32390fa0134736301cd2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:06 +0000
Subject: [PATCH 01/17] fix: let handles used in destructors during a sync
 collection keep their counts

While sweeping, the collector gave up the references from garbage to
reachable allocations in advance and made every Gc drop on its thread a
no-op. A destructor which moved such a handle out, cloned it, or created and
dropped handles of its own thus left the counts wrong, which led to leaks or
to a value being freed while still in use. Requesting a collection from a
destructor deadlocked on the lock held by the sweep.

Handles to reachable allocations are now left to release their reference
when they are dropped, and only nested collections are suppressed.
---
 dumpster/src/sync/collect.rs | 16 ++++++++++------
 dumpster/src/sync/mod.rs     |  7 ++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index b1affde..bf2c6eb 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -131,6 +131,10 @@ thread_local! {
 /// Ensures that all allocations dropped on the calling thread are cleaned up
 pub fn collect_all_await() {
     DUMPSTER.with(|d| d.deliver_to(&GARBAGE_TRUCK));
+    if currently_cleaning() {
+        // this thread is running the collection we would have to wait for
+        return;
+    }
     GARBAGE_TRUCK.collect_all();
     drop(GARBAGE_TRUCK.collecting_lock.read());
 }
@@ -153,6 +157,7 @@ pub fn notify_dropped_gc() {
     if (unsafe {
         transmute::<_, CollectCondition>(GARBAGE_TRUCK.collect_condition.load(Ordering::Relaxed))
     })(&CollectInfo { _private: () })
+        && !currently_cleaning()
     {
         GARBAGE_TRUCK.collect_all();
     }
@@ -495,7 +500,10 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
     ptr: Erased,
     graph: &HashMap<AllocationId, AllocationInfo>,
 ) {
-    /// A visitor for decrementing the reference count of pointees.
+    /// A visitor for killing the `Gc`s which point to other allocations being destroyed.
+    ///
+    /// `Gc`s to reachable allocations stay as they are, and release their reference when they are
+    /// dropped.
     struct PrepareForDestruction<'a> {
         /// The reference graph.
         /// Must have been populated with reachability already.
@@ -508,11 +516,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
             T: Collectable + Send + Sync + ?Sized,
         {
             let id = AllocationId::from(unsafe { (*gc.ptr.get()).unwrap() });
-            if matches!(self.graph[&id].reachability, Reachability::Reachable) {
-                unsafe {
-                    id.0.as_ref().strong.fetch_sub(1, Ordering::Release);
-                }
-            } else {
+            if !matches!(self.graph[&id].reachability, Reachability::Reachable) {
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 30c61dd..f48dd40 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -44,8 +44,8 @@ use std::{
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
 use self::collect::{
-    collect_all_await, currently_cleaning, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing,
-    notify_created_gc, notify_dropped_gc,
+    collect_all_await, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing, notify_created_gc,
+    notify_dropped_gc,
 };
 
 /// A thread-safe garbage-collected pointer.
@@ -453,9 +453,6 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     fn drop(&mut self) {
-        if currently_cleaning() {
-            return;
-        }
         let Some(mut ptr) = unsafe { *self.ptr.get() }.as_option() else {
             return;
         };
-- 
2.43.0


From 7fbd2f623818222e476ce1e2f8eb21bff0ef325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:22 +0000
Subject: [PATCH 02/17] fix: free a sync allocation exactly once when drops and
 collections race

The thread dropping the last handle freed the allocation only if no other
thread held a weak reference at that moment. Another thread which was still
finishing its own drop did not check whether it had become the last one, so
the allocation leaked. The collector had the opposite problem: after giving up
its weak reference it looked at the strong count of an allocation which another
thread could already have freed.

All handles together now own one weak reference, which the last one gives up.
Whoever brings the weak count to zero owns the allocation and destroys it.
---
 dumpster/src/sync/collect.rs | 20 +++++++++++++++-----
 dumpster/src/sync/mod.rs     | 31 +++++++++++++++++--------------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index bf2c6eb..9a20393 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -14,7 +14,7 @@ use std::{
     collections::{hash_map::Entry, HashMap},
     mem::{replace, swap, take, transmute},
     ptr::{drop_in_place, NonNull},
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
+    sync::atomic::{fence, AtomicPtr, AtomicUsize, Ordering},
 };
 
 use parking_lot::{Mutex, RwLock};
@@ -295,7 +295,7 @@ impl GarbageTruck {
             .filter_map(|(&k, v)| match v.reachability {
                 Reachability::Reachable => Some(k),
                 Reachability::Unknown { n_unaccounted, .. } => (n_unaccounted > 0
-                    || unsafe { k.0.as_ref().weak.load(Ordering::Acquire) > 1 })
+                    || is_held_elsewhere(unsafe { k.0.as_ref() }))
                 .then_some(k),
             })
             .collect::<Vec<_>>();
@@ -313,9 +313,8 @@ impl GarbageTruck {
                     destroy_fn(node.ptr, &ref_graph);
                 },
                 Reachability::Reachable => {
-                    if header_ref.weak.fetch_sub(1, Ordering::Release) == 1
-                        && header_ref.strong.load(Ordering::Acquire) == 0
-                    {
+                    if header_ref.weak.fetch_sub(1, Ordering::Release) == 1 {
+                        fence(Ordering::Acquire);
                         // we are the last reference to the allocation.
                         // mark to be cleaned up later
                         // no real synchronization loss to storing the guard because we had the last
@@ -478,6 +477,17 @@ impl<'a> Visitor for Dfs<'a> {
     }
 }
 
+/// Determine whether anything other than the ongoing collection and the `Gc`s to an allocation holds
+/// a weak reference to it.
+fn is_held_elsewhere(header: &GcBox<()>) -> bool {
+    match header.weak.load(Ordering::Acquire) {
+        0 | 1 => false,
+        // the weak reference held jointly by the `Gc`s only exists as long as there are any
+        2 => header.strong.load(Ordering::Acquire) == 0,
+        _ => true,
+    }
+}
+
 /// Traverse the reference graph, marking `root` and any allocations reachable from `root` as
 /// reachable.
 fn mark(root: AllocationId, graph: &mut HashMap<AllocationId, AllocationInfo>) {
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index f48dd40..53554e3 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -105,8 +105,9 @@ where
     /// allocation itself must still be valid.
     strong: AtomicUsize,
     /// The "weak" count, which is the number of references to this allocation stored in to-collect
-    /// buffers by the collection algorithm.
-    /// If the weak count is zero, the allocation may be destroyed.
+    /// buffers by the collection algorithm or held by drops in progress, plus one which is held
+    /// jointly by all the extant `Gc`s to this allocation.
+    /// Whoever brings the weak count to zero must destroy the allocation.
     weak: AtomicUsize,
     /// The current generation number of the allocation.
     /// The generation number is assigned to the global generation every time a strong reference is
@@ -232,7 +233,7 @@ where
         Gc {
             ptr: UnsafeCell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 strong: AtomicUsize::new(1),
-                weak: AtomicUsize::new(0),
+                weak: AtomicUsize::new(1),
                 generation: AtomicUsize::new(CURRENT_TAG.load(Ordering::Acquire)),
                 value,
             }))))),
@@ -462,25 +463,27 @@ where
         box_ref
             .generation
             .store(CURRENT_TAG.load(Ordering::Relaxed), Ordering::Release);
-        match box_ref.strong.fetch_sub(1, Ordering::AcqRel) {
+        let n_weak_held = match box_ref.strong.fetch_sub(1, Ordering::AcqRel) {
             0 => unreachable!("strong cannot reach zero while a Gc to it exists"),
             1 => {
                 mark_clean(box_ref);
-                if box_ref.weak.fetch_sub(1, Ordering::Release) == 1 {
-                    // destroyed the last weak reference! we can safely deallocate this
-                    let layout = Layout::for_value(box_ref);
-                    fence(Ordering::Acquire);
-                    unsafe {
-                        drop_in_place(ptr.as_mut());
-                        dealloc(ptr.as_ptr().cast(), layout);
-                    }
-                }
+                // also give up the weak reference held on behalf of all strong references
+                2
             }
             _ => {
                 if contains_gcs(&box_ref.value).unwrap_or(true) {
                     mark_dirty(ptr);
                 }
-                box_ref.weak.fetch_sub(1, Ordering::Release);
+                1
+            }
+        };
+        if box_ref.weak.fetch_sub(n_weak_held, Ordering::Release) == n_weak_held {
+            // destroyed the last weak reference! we can safely deallocate this
+            let layout = Layout::for_value(box_ref);
+            fence(Ordering::Acquire);
+            unsafe {
+                drop_in_place(ptr.as_mut());
+                dealloc(ptr.as_ptr().cast(), layout);
             }
         }
         notify_dropped_gc();
-- 
2.43.0


From 856d3f8627ba97528db3128affa41c75a2bb7e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:27 +0000
Subject: [PATCH 03/17] fix: do not hold the sync collection lock while
 dropping leftover values

After a sweep the collector destroys the values whose last handle was dropped
while the collection was looking at them. Their destructors run like any other
drop and may trigger or request another collection, which deadlocked because
the collecting thread still held the lock.
---
 dumpster/src/sync/collect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 9a20393..57572ed 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -325,10 +325,11 @@ impl GarbageTruck {
             };
         }
         CLEANING.with(|c| c.set(false));
+        // these destructors may start a new collection, so they cannot run under the lock
+        drop(collecting_guard);
         for (drop_fn, ptr) in weak_destroys {
             unsafe { drop_fn(ptr) };
         }
-        drop(collecting_guard);
     }
 }
 
-- 
2.43.0


From f21e4d309c32383828994090a9603e0565ce6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:23 +0000
Subject: [PATCH 04/17] fix: look again at sync garbage whose pointees were
 accessed during a collection

When a collection finds a handle to an allocation which was accessed since the
collection started, it keeps the allocation owning that handle. It also forgot
about the owner, although an access to the pointee says nothing about whether
the owner is still referred to. A garbage cycle pointing to a busy value thus
leaked forever.

Such owners now go back to the garbage truck for the next collection.
---
 dumpster/src/sync/collect.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 57572ed..d73cc88 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -76,8 +76,13 @@ struct AllocationInfo {
     /// Function for dropping the allocation when its weak and strong count hits zero.
     /// Should have the same behavior as dropping a Gc normally to a reference count of zero.
     weak_drop_fn: unsafe fn(Erased),
+    /// The function which can be used to build a reference graph starting from this allocation.
+    dfs_fn: unsafe fn(Erased, &mut HashMap<AllocationId, AllocationInfo>),
     /// Information about this allocation's reachability.
     reachability: Reachability,
+    /// Whether the next collection must look at this allocation again, because it was only assumed
+    /// to be reachable.
+    retry: bool,
 }
 
 #[derive(Debug)]
@@ -312,6 +317,16 @@ impl GarbageTruck {
                 Reachability::Unknown { destroy_fn, .. } => unsafe {
                     destroy_fn(node.ptr, &ref_graph);
                 },
+                Reachability::Reachable if node.retry => {
+                    // hand our weak reference over to the truck
+                    let can = TrashCan {
+                        ptr: node.ptr,
+                        dfs_fn: node.dfs_fn,
+                    };
+                    if self.contents.lock().insert(*id, can).is_some() {
+                        header_ref.weak.fetch_sub(1, Ordering::Release);
+                    }
+                }
                 Reachability::Reachable => {
                     if header_ref.weak.fetch_sub(1, Ordering::Release) == 1 {
                         fence(Ordering::Acquire);
@@ -364,11 +379,13 @@ unsafe fn dfs<T: Collectable + Send + Sync + ?Sized>(
     v.insert(AllocationInfo {
         ptr,
         weak_drop_fn: drop_weak_zero::<T>,
+        dfs_fn: dfs::<T>,
         reachability: Reachability::Unknown {
             children: Vec::new(),
             n_unaccounted: strong_count,
             destroy_fn: destroy_erased::<T>,
         },
+        retry: false,
     });
 
     if box_ref
@@ -410,6 +427,9 @@ impl<'a> Visitor for Dfs<'a> {
         {
             // This pointer was already tagged by this sweep, so it must have been moved by
             mark(self.current_id, self.ref_graph);
+            // The pointee being accessed does not mean that anything else still refers to the
+            // current allocation, so nobody else might bring it up again
+            self.ref_graph.get_mut(&self.current_id).unwrap().retry = true;
             return;
         }
 
@@ -446,11 +466,13 @@ impl<'a> Visitor for Dfs<'a> {
                 v.insert(AllocationInfo {
                     ptr: Erased::new(ptr),
                     weak_drop_fn: drop_weak_zero::<T>,
+                    dfs_fn: dfs::<T>,
                     reachability: Reachability::Unknown {
                         children: Vec::new(),
                         n_unaccounted: strong_count - 1,
                         destroy_fn: destroy_erased::<T>,
                     },
+                    retry: false,
                 });
 
                 // Save the previously visited ID, then carry on to the next one
-- 
2.43.0


From eb550f6625d274fcc911a1b90f1ee03d98fb41df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:43 +0000
Subject: [PATCH 05/17] fix: ignore dead handles while tracing

A destructor may move a Gc to already-collected data into a value which is
still in use. The next collection to trace that value panicked.
---
 dumpster/src/sync/collect.rs   | 10 ++++++++--
 dumpster/src/unsync/collect.rs | 13 ++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index d73cc88..314666f 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -419,7 +419,10 @@ impl<'a> Visitor for Dfs<'a> {
     where
         T: Collectable + Send + Sync + ?Sized,
     {
-        let ptr = unsafe { (*gc.ptr.get()).unwrap() };
+        let Some(ptr) = unsafe { *gc.ptr.get() }.as_option() else {
+            // a dead `Gc` which escaped from a destructor leads nowhere
+            return;
+        };
         let box_ref = unsafe { ptr.as_ref() };
         let current_tag = CURRENT_TAG.load(Ordering::Relaxed);
         if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag
@@ -548,7 +551,10 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
         where
             T: Collectable + Send + Sync + ?Sized,
         {
-            let id = AllocationId::from(unsafe { (*gc.ptr.get()).unwrap() });
+            let Some(ptr) = unsafe { *gc.ptr.get() }.as_option() else {
+                return;
+            };
+            let id = AllocationId::from(ptr);
             if !matches!(self.graph[&id].reachability, Reachability::Reachable) {
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 4a969ff..ac77e22 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -245,7 +245,10 @@ impl Visitor for Dfs {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            // a dead `Gc` which escaped from a destructor leads nowhere
+            return;
+        };
         let next_id = AllocationId::from(ptr);
         match self.ref_graph.entry(next_id) {
             Entry::Occupied(ref mut o) => {
@@ -284,7 +287,9 @@ impl Visitor for Mark {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return;
+        };
         if self.visited.insert(AllocationId::from(ptr)) {
             let _ = unsafe { ptr.as_ref().value.accept(self) };
         }
@@ -311,7 +316,9 @@ impl Visitor for DropAlloc<'_> {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return;
+        };
         let id = AllocationId::from(ptr);
         if self.reachable.contains(&id) {
             unsafe {
-- 
2.43.0


From 105f1ff528163c4c9c4f475f798db826b727b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:10 +0000
Subject: [PATCH 06/17] fix: let handles used in destructors during an unsync
 collection keep their counts

While sweeping, the collector gave up the references from garbage to
reachable allocations in advance and made every Gc drop on its thread a
no-op. A destructor which moved such a handle out, cloned it, or created and
dropped handles of its own thus left the counts wrong. Dereferencing a handle
to reachable data panicked, even through try_deref. Requesting a collection
or dropping the wrong handle panicked because the set of candidates was
still borrowed.

Handles to reachable allocations are now left to release their reference
when they are dropped, and only nested collections are suppressed.
---
 dumpster/src/unsync/collect.rs | 18 ++++++++++--------
 dumpster/src/unsync/mod.rs     |  9 +--------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index ac77e22..c6f11e8 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -106,6 +106,10 @@ unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visito
 impl Dumpster {
     /// Collect all unreachable allocations that this dumpster is responsible for.
     pub fn collect_all(&self) {
+        if COLLECTING.with(Cell::get) {
+            // called from a destructor which is being run by another collection
+            return;
+        }
         self.n_ref_drops.set(0);
 
         unsafe {
@@ -150,10 +154,11 @@ impl Dumpster {
             };
 
             COLLECTING.with(|c| c.set(true));
+            // the destructors may mark other allocations as dirty
             for cleanup in self
                 .to_collect
-                .borrow_mut()
-                .drain()
+                .take()
+                .into_iter()
                 .filter_map(|(id, cleanup)| (!mark.visited.contains(&id)).then_some(cleanup))
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
@@ -321,10 +326,7 @@ impl Visitor for DropAlloc<'_> {
         };
         let id = AllocationId::from(ptr);
         if self.reachable.contains(&id) {
-            unsafe {
-                let cell_ref = &ptr.as_ref().ref_count;
-                cell_ref.set(NonZeroUsize::new(cell_ref.get().get() - 1).unwrap());
-            }
+            // this `Gc` will release its reference when it is dropped
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
@@ -339,8 +341,8 @@ impl Visitor for DropAlloc<'_> {
     }
 }
 
-/// Decrement the outbound reference counts for any reachable allocations which this allocation can
-/// find.
+/// Destroy all unreachable allocations which this allocation can find, killing the `Gc`s which point
+/// to them.
 /// Also, drop the allocation when done.
 unsafe fn drop_assist<T: Collectable + ?Sized>(ptr: Erased, visitor: &mut DropAlloc<'_>) {
     if visitor
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index d6b49df..bd57135 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -43,7 +43,7 @@ use std::{
 
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
-use self::collect::{Dumpster, COLLECTING, DUMPSTER};
+use self::collect::{Dumpster, DUMPSTER};
 
 mod collect;
 #[cfg(test)]
@@ -407,10 +407,6 @@ impl<T: Collectable + ?Sized> Deref for Gc<T> {
     /// });
     /// ```
     fn deref(&self) -> &Self::Target {
-        assert!(
-            !COLLECTING.with(Cell::get),
-            "dereferencing GC to already-collected object"
-        );
         unsafe {
             &self.ptr.get().expect("dereferencing Gc to already-collected object. \
             This means a Gc escaped from a Drop implementation, likely implying a bug in your code.").as_ref().value
@@ -488,9 +484,6 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
     /// If this is the last reference which can reach the pointed-to data, the allocation that it
     /// points to will be destroyed.
     fn drop(&mut self) {
-        if COLLECTING.with(Cell::get) {
-            return;
-        }
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-- 
2.43.0


From 75867936dae36b323067fc877cb612bd8baa047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:15 +0000
Subject: [PATCH 07/17] fix: recover when a destructor panics during a
 collection

The flag which marks a thread as sweeping stayed set when a destructor
panicked. From then on the thread silently ignored drops or collections.
---
 dumpster/src/sync/collect.rs   | 22 ++++++++++++++++++++--
 dumpster/src/unsync/collect.rs | 22 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 314666f..9f63748 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -308,7 +308,7 @@ impl GarbageTruck {
             mark(root_id, &mut ref_graph);
         }
 
-        CLEANING.with(|c| c.set(true));
+        let cleaning_guard = CleaningGuard::new();
         // set of allocations which must be destroyed because we were the last weak pointer to it
         let mut weak_destroys = Vec::new();
         for (id, node) in &ref_graph {
@@ -339,7 +339,7 @@ impl GarbageTruck {
                 }
             };
         }
-        CLEANING.with(|c| c.set(false));
+        drop(cleaning_guard);
         // these destructors may start a new collection, so they cannot run under the lock
         drop(collecting_guard);
         for (drop_fn, ptr) in weak_destroys {
@@ -348,6 +348,24 @@ impl GarbageTruck {
     }
 }
 
+/// A guard which marks the current thread as cleaning for as long as it exists, even if a destructor
+/// panics.
+struct CleaningGuard;
+
+impl CleaningGuard {
+    /// Mark the current thread as cleaning.
+    fn new() -> Self {
+        CLEANING.with(|c| c.set(true));
+        CleaningGuard
+    }
+}
+
+impl Drop for CleaningGuard {
+    fn drop(&mut self) {
+        CLEANING.with(|c| c.set(false));
+    }
+}
+
 /// Build out a part of the reference graph, making note of all allocations which are reachable from
 /// the one described in `ptr`.
 ///
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index c6f11e8..4ef763d 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -153,7 +153,7 @@ impl Dumpster {
                 reachable: &mark.visited,
             };
 
-            COLLECTING.with(|c| c.set(true));
+            let collecting_guard = CollectingGuard::new();
             // the destructors may mark other allocations as dirty
             for cleanup in self
                 .to_collect
@@ -163,7 +163,7 @@ impl Dumpster {
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
             }
-            COLLECTING.with(|c| c.set(false));
+            drop(collecting_guard);
         }
     }
 
@@ -217,6 +217,24 @@ impl Drop for Dumpster {
     }
 }
 
+/// A guard which marks the current thread as collecting for as long as it exists, even if a
+/// destructor panics.
+struct CollectingGuard;
+
+impl CollectingGuard {
+    /// Mark the current thread as collecting.
+    fn new() -> Self {
+        COLLECTING.with(|c| c.set(true));
+        CollectingGuard
+    }
+}
+
+impl Drop for CollectingGuard {
+    fn drop(&mut self) {
+        COLLECTING.with(|c| c.set(false));
+    }
+}
+
 /// The data required to construct the graph of reachable allocations.
 struct Dfs {
     /// The set of allocations which have already been visited.
-- 
2.43.0


From 3512f95536f6ae3589e4d79d7639be7cc5a43bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:32 +0000
Subject: [PATCH 08/17] fix: trace through poisoned locks

Tracing a Mutex or RwLock panicked if the lock was poisoned, so a panic in one
thread made later drops and collections in other threads panic, too.
---
 dumpster/src/impls.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/dumpster/src/impls.rs b/dumpster/src/impls.rs
index 080c339..2135d2b 100644
--- a/dumpster/src/impls.rs
+++ b/dumpster/src/impls.rs
@@ -90,26 +90,24 @@ unsafe impl<T: Collectable + ?Sized> Collectable for RefCell<T> {
 unsafe impl<T: Collectable + ?Sized> Collectable for Mutex<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
-        self.try_lock()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
-            })?
-            .deref()
-            .accept(visitor)
+        match self.try_lock() {
+            Ok(guard) => guard.deref().accept(visitor),
+            // the data may be inconsistent, but its `Gc`s are still valid
+            Err(TryLockError::Poisoned(e)) => e.into_inner().deref().accept(visitor),
+            Err(TryLockError::WouldBlock) => Err(()),
+        }
     }
 }
 
 unsafe impl<T: Collectable + ?Sized> Collectable for RwLock<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
-        self.try_read()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
-            })?
-            .deref()
-            .accept(visitor)
+        match self.try_read() {
+            Ok(guard) => guard.deref().accept(visitor),
+            // the data may be inconsistent, but its `Gc`s are still valid
+            Err(TryLockError::Poisoned(e)) => e.into_inner().deref().accept(visitor),
+            Err(TryLockError::WouldBlock) => Err(()),
+        }
     }
 }
 
-- 
2.43.0


From 7af76dcdc9e93c856940e06011d4cf8170443fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:09 +0000
Subject: [PATCH 09/17] fix: allow sync handles to be used while a thread is
 exiting

Dropping a handle in the destructor of a thread-local value aborted the
process if the thread's dumpster had been destroyed before. Such drops now go
straight to the global garbage truck.
---
 dumpster/src/sync/collect.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 9f63748..25aa706 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -135,7 +135,8 @@ thread_local! {
 /// completion of the collection.
 /// Ensures that all allocations dropped on the calling thread are cleaned up
 pub fn collect_all_await() {
-    DUMPSTER.with(|d| d.deliver_to(&GARBAGE_TRUCK));
+    // if this thread's dumpster is gone already, there is nothing left to deliver
+    let _ = DUMPSTER.try_with(|d| d.deliver_to(&GARBAGE_TRUCK));
     if currently_cleaning() {
         // this thread is running the collection we would have to wait for
         return;
@@ -152,7 +153,7 @@ pub fn collect_all_await() {
 pub fn notify_dropped_gc() {
     GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
     GARBAGE_TRUCK.n_gcs_dropped.fetch_add(1, Ordering::Relaxed);
-    DUMPSTER.with(|dumpster| {
+    let _ = DUMPSTER.try_with(|dumpster| {
         dumpster.n_drops.set(dumpster.n_drops.get() + 1);
         if dumpster.is_full() {
             dumpster.deliver_to(&GARBAGE_TRUCK);
@@ -180,10 +181,8 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     let box_ref = unsafe { allocation.as_ref() };
-    DUMPSTER.with(|dumpster| {
-        if dumpster
-            .contents
-            .borrow_mut()
+    let insert_into = |contents: &mut HashMap<AllocationId, TrashCan>| {
+        if contents
             .insert(
                 AllocationId::from(box_ref),
                 TrashCan {
@@ -195,7 +194,14 @@ where
         {
             box_ref.weak.fetch_add(1, Ordering::Acquire);
         }
-    });
+    };
+    if DUMPSTER
+        .try_with(|dumpster| insert_into(&mut dumpster.contents.borrow_mut()))
+        .is_err()
+    {
+        // this thread is exiting and its dumpster is gone already
+        insert_into(&mut GARBAGE_TRUCK.contents.lock());
+    }
 }
 
 /// Mark an allocation as "clean," implying that it has already been cleaned up and does not
@@ -204,7 +210,7 @@ pub(super) fn mark_clean<T>(allocation: &GcBox<T>)
 where
     T: Collectable + Send + Sync + ?Sized,
 {
-    DUMPSTER.with(|dumpster| {
+    let _ = DUMPSTER.try_with(|dumpster| {
         if dumpster
             .contents
             .borrow_mut()
-- 
2.43.0


From 0e74487c9a08b56e814ced1254495b9b18b76dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:27 +0000
Subject: [PATCH 10/17] fix: allow unsync handles to be used while a thread is
 exiting

Dropping, cloning or creating a handle in the destructor of a thread-local
value aborted the process if the thread's dumpster had been destroyed before,
and so did every destructor run by the final collection which touched a handle.

The dumpster now stays accessible until the end. A separate thread-local value
triggers the final collection, and later drops are cleaned up right away.
---
 dumpster/src/unsync/collect.rs | 43 ++++++++++++++++++++++++++++++----
 dumpster/src/unsync/mod.rs     |  6 ++---
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 4ef763d..90c5a50 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -12,6 +12,7 @@ use std::{
     alloc::{dealloc, Layout},
     cell::{Cell, RefCell},
     collections::{hash_map::Entry, HashMap, HashSet},
+    mem::ManuallyDrop,
     num::NonZeroUsize,
     ptr::{drop_in_place, NonNull},
 };
@@ -28,12 +29,18 @@ thread_local! {
     /// Whether the current thread is running a cleanup process.
     pub(super) static COLLECTING: Cell<bool> = const { Cell::new(false) };
     /// The global collection of allocation information for this thread.
-    pub(super) static DUMPSTER: Dumpster = Dumpster {
+    ///
+    /// It has no destructor, because the destructors of other thread-local values may still need it
+    /// when this thread exits.
+    pub(super) static DUMPSTER: ManuallyDrop<Dumpster> = ManuallyDrop::new(Dumpster {
         to_collect: RefCell::new(HashMap::new()),
         n_ref_drops: Cell::new(0),
         n_refs_living: Cell::new(0),
         collect_condition: Cell::new(default_collect_condition),
-    };
+        exiting: Cell::new(false),
+    });
+    /// The value whose destructor cleans up this thread's leftover allocations.
+    static EXIT_GUARD: ExitGuard = const { ExitGuard };
 }
 
 /// A dumpster is a collection of all the garbage that may or may not need to be cleaned up.
@@ -48,8 +55,13 @@ pub(super) struct Dumpster {
     pub n_refs_living: Cell<usize>,
     /// The function for determining whether a collection should be run.
     pub collect_condition: Cell<CollectCondition>,
+    /// Whether this thread is exiting and has already cleaned up its leftover allocations.
+    exiting: Cell<bool>,
 }
 
+/// A value whose destructor cleans up all leftover allocations of the current thread.
+struct ExitGuard;
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
 /// A unique identifier for an allocated garbage-collected block.
 ///
@@ -167,9 +179,23 @@ impl Dumpster {
         }
     }
 
+    /// Collect until there is nothing left to look at, including the allocations which destructors
+    /// mark as dirty in the meantime.
+    fn collect_leftovers(&self) {
+        if COLLECTING.with(Cell::get) {
+            // whoever started the ongoing collection will carry on
+            return;
+        }
+        while !self.to_collect.borrow().is_empty() {
+            self.collect_all();
+        }
+    }
+
     /// Mark an allocation as "dirty," implying that it may need to be swept through later to find
     /// out if it has any references pointing to it.
     pub fn mark_dirty<T: Collectable + ?Sized>(&self, box_ptr: NonNull<GcBox<T>>) {
+        // make sure that the allocation gets cleaned up when this thread exits
+        let _ = EXIT_GUARD.try_with(|_| ());
         self.to_collect
             .borrow_mut()
             .entry(AllocationId::from(box_ptr))
@@ -202,6 +228,11 @@ impl Dumpster {
         if (self.collect_condition.get())(&CollectInfo { _private: () }) {
             self.collect_all();
         }
+
+        if self.exiting.get() {
+            // there will not be another opportunity
+            self.collect_leftovers();
+        }
     }
 
     /// Notify the dumpster that a new [`Gc`] has been created.
@@ -210,10 +241,12 @@ impl Dumpster {
     }
 }
 
-impl Drop for Dumpster {
+impl Drop for ExitGuard {
     fn drop(&mut self) {
-        // cleanup any leftover allocations
-        self.collect_all();
+        DUMPSTER.with(|d| {
+            d.exiting.set(true);
+            d.collect_leftovers();
+        });
     }
 }
 
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index bd57135..f13e63c 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -43,7 +43,7 @@ use std::{
 
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
-use self::collect::{Dumpster, DUMPSTER};
+use self::collect::DUMPSTER;
 
 mod collect;
 #[cfg(test)]
@@ -116,7 +116,7 @@ pub struct Gc<T: Collectable + ?Sized + 'static> {
 /// # }
 /// ```
 pub fn collect() {
-    DUMPSTER.with(Dumpster::collect_all);
+    DUMPSTER.with(|d| d.collect_all());
 }
 
 /// Information passed to a [`CollectCondition`] used to determine whether the garbage collector
@@ -213,7 +213,7 @@ impl<T: Collectable + ?Sized> Gc<T> {
     where
         T: Sized,
     {
-        DUMPSTER.with(Dumpster::notify_created_gc);
+        DUMPSTER.with(|d| d.notify_created_gc());
         Gc {
             ptr: Cell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 ref_count: Cell::new(NonZeroUsize::MIN),
-- 
2.43.0


From 1ce0ca70fd19213cd128f3182304e689e0fd676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:31 +0000
Subject: [PATCH 11/17] fix: keep the number of existing handles right when
 garbage is collected

Handles which a collection killed were counted as existing forever. The more
cycles a program had collected, the rarer automatic collections became.
---
 dumpster/src/sync/collect.rs   | 1 +
 dumpster/src/unsync/collect.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 25aa706..bf0c97e 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -583,6 +583,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
+                GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
             }
         }
 
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 90c5a50..fe2e363 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -381,6 +381,7 @@ impl Visitor for DropAlloc<'_> {
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
+        DUMPSTER.with(|d| d.n_refs_living.set(d.n_refs_living.get() - 1));
         if self.visited.insert(id) {
             unsafe {
                 ptr.as_ref().value.accept(self).unwrap();
-- 
2.43.0


From 097405b2143083426ddd49266822e00ba39dd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:31 +0000
Subject: [PATCH 12/17] fix: make the derive macro work for generic types

The generated code bounded type parameters by a trait of an unrelated
crate, and its own type parameter clashed with one named V.
---
 dumpster_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 917b1d1..96bb7dd 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -34,7 +34,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
     let generated = quote! {
         unsafe impl #impl_generics dumpster::Collectable for #name #ty_generics #where_clause {
             #[inline]
-            fn accept<V: dumpster::Visitor>(&self, visitor: &mut V) -> std::result::Result<(), ()> {
+            fn accept<__V: dumpster::Visitor>(&self, visitor: &mut __V) -> std::result::Result<(), ()> {
                 #do_visitor
             }
         }
@@ -47,7 +47,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
 fn add_trait_bounds(mut generics: Generics) -> Generics {
     for param in &mut generics.params {
         if let GenericParam::Type(ref mut type_param) = *param {
-            type_param.bounds.push(parse_quote!(heapsize::HeapSize));
+            type_param.bounds.push(parse_quote!(dumpster::Collectable));
         }
     }
     generics
-- 
2.43.0


From d56e9e6357c1144a1a89df9d13283d8ed287cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:51 +0000
Subject: [PATCH 13/17] fix: keep values whose contents are inaccessible during
 a collection

A thread-local collection panicked when it met a value with a leaked borrow
or lock guard: the value was considered garbage although its contents could
not be visited. Such values now count as reachable.
---
 dumpster/src/unsync/collect.rs | 40 ++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index fe2e363..19551e2 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -84,9 +84,9 @@ where
 struct Cleanup {
     /// The function which is called to build the reference graph and find all allocations
     /// reachable from this allocation.
-    dfs_fn: unsafe fn(Erased, &mut Dfs),
+    dfs_fn: unsafe fn(Erased, &mut Dfs) -> Result<(), ()>,
     /// The function which is called to mark descendants of this allocation as reachable.
-    mark_fn: unsafe fn(Erased, &mut Mark),
+    mark_fn: unsafe fn(Erased, &mut Mark) -> Result<(), ()>,
     /// A function used for dropping the allocation.
     drop_fn: unsafe fn(Erased, &mut DropAlloc<'_>),
     /// An erased pointer to the allocation.
@@ -107,12 +107,19 @@ impl Cleanup {
 
 /// Apply a visitor to some erased pointer.
 ///
+/// # Errors
+///
+/// This function will return an error if the allocation's value could not be fully visited.
+///
 /// # Safety
 ///
 /// `T` must be the same type that `ptr` was created with via [`ErasedPtr::new`].
-unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visitor: &mut V) {
+unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(
+    ptr: Erased,
+    visitor: &mut V,
+) -> Result<(), ()> {
     let specified: NonNull<GcBox<T>> = ptr.specify();
-    let _ = specified.as_ref().value.accept(visitor);
+    specified.as_ref().value.accept(visitor)
 }
 
 impl Dumpster {
@@ -128,24 +135,23 @@ impl Dumpster {
             let mut dfs = Dfs {
                 visited: HashSet::with_capacity(self.to_collect.borrow().len()),
                 ref_graph: HashMap::with_capacity(self.to_collect.borrow().len()),
+                inaccessible: HashSet::new(),
             };
 
             for (k, v) in &*self.to_collect.borrow() {
-                if dfs.visited.insert(*k) {
-                    (v.dfs_fn)(v.ptr, &mut dfs);
+                if dfs.visited.insert(*k) && (v.dfs_fn)(v.ptr, &mut dfs).is_err() {
+                    dfs.inaccessible.insert(*k);
                 }
             }
 
             let mut mark = Mark {
                 visited: HashSet::with_capacity(dfs.visited.len()),
             };
-            for (id, reachability) in dfs
-                .ref_graph
-                .iter()
-                .filter(|(_, reachability)| reachability.n_unaccounted != 0)
-            {
+            for (id, reachability) in dfs.ref_graph.iter().filter(|(id, reachability)| {
+                reachability.n_unaccounted != 0 || dfs.inaccessible.contains(id)
+            }) {
                 mark.visited.insert(*id);
-                (reachability.mark_fn)(reachability.ptr, &mut mark);
+                let _ = (reachability.mark_fn)(reachability.ptr, &mut mark);
             }
 
             // any allocations which we didn't find must also be roots
@@ -156,7 +162,7 @@ impl Dumpster {
                 .filter(|(id, _)| !dfs.ref_graph.contains_key(id))
             {
                 mark.visited.insert(*id);
-                (cleanup.mark_fn)(cleanup.ptr, &mut mark);
+                let _ = (cleanup.mark_fn)(cleanup.ptr, &mut mark);
             }
 
             dfs.visited.clear();
@@ -274,6 +280,8 @@ struct Dfs {
     visited: HashSet<AllocationId>,
     /// A map from allocation identifiers to information about their reachability.
     ref_graph: HashMap<AllocationId, Reachability>,
+    /// The set of allocations whose values could not be examined, and so must not be destroyed.
+    inaccessible: HashSet<AllocationId>,
 }
 
 #[derive(Debug)]
@@ -285,7 +293,7 @@ struct Reachability {
     /// An erased pointer to the allocation under concern.
     ptr: Erased,
     /// A function used to mark descendants of this allocation as accessible.
-    mark_fn: unsafe fn(Erased, &mut Mark),
+    mark_fn: unsafe fn(Erased, &mut Mark) -> Result<(), ()>,
 }
 
 impl Visitor for Dfs {
@@ -318,8 +326,8 @@ impl Visitor for Dfs {
                 });
             }
         }
-        if self.visited.insert(next_id) {
-            let _ = unsafe { ptr.as_ref() }.value.accept(self);
+        if self.visited.insert(next_id) && unsafe { ptr.as_ref() }.value.accept(self).is_err() {
+            self.inaccessible.insert(next_id);
         }
     }
 }
-- 
2.43.0


From 9ae27339809028fb762596e207ca39f019b3a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:51 +0000
Subject: [PATCH 14/17] fix: look again at values which another thread was
 still dropping a handle to

The other thread might have examined the value before it became part of a
cycle. The collection gave up its candidate, so the cycle was never freed.
---
 dumpster/src/sync/collect.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index bf0c97e..bdc9e1b 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -302,12 +302,17 @@ impl GarbageTruck {
         }
 
         let root_ids = ref_graph
-            .iter()
+            .iter_mut()
             .filter_map(|(&k, v)| match v.reachability {
                 Reachability::Reachable => Some(k),
-                Reachability::Unknown { n_unaccounted, .. } => (n_unaccounted > 0
-                    || is_held_elsewhere(unsafe { k.0.as_ref() }))
-                .then_some(k),
+                Reachability::Unknown { n_unaccounted, .. } if n_unaccounted > 0 => Some(k),
+                Reachability::Unknown { .. } if is_held_elsewhere(unsafe { k.0.as_ref() }) => {
+                    // whoever holds it might have examined it before it became part of a cycle, and
+                    // not bring it up again
+                    v.retry = true;
+                    Some(k)
+                }
+                Reachability::Unknown { .. } => None,
             })
             .collect::<Vec<_>>();
         for root_id in root_ids {
-- 
2.43.0


From ddea28c113edf88778f3c96f06c28fab05838c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:51 +0000
Subject: [PATCH 15/17] fix: look again at values which could not be examined
 by a collection

Another thread dropping a handle might have examined some of the value's
locks before a cycle was closed through them, and keep the collection out
with a later one. Neither of them remembered the value, so the cycle leaked.
---
 dumpster/src/sync/collect.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index bdc9e1b..4fbb1b1 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -328,7 +328,10 @@ impl GarbageTruck {
                 Reachability::Unknown { destroy_fn, .. } => unsafe {
                     destroy_fn(node.ptr, &ref_graph);
                 },
-                Reachability::Reachable if node.retry => {
+                // (an allocation without any `Gc`s left only waits for our weak reference to go)
+                Reachability::Reachable
+                    if node.retry && header_ref.strong.load(Ordering::Acquire) > 0 =>
+                {
                     // hand our weak reference over to the truck
                     let can = TrashCan {
                         ptr: node.ptr,
@@ -417,13 +420,16 @@ unsafe fn dfs<T: Collectable + Send + Sync + ?Sized>(
         retry: false,
     });
 
-    if box_ref
-        .value
-        .accept(&mut Dfs {
-            ref_graph,
-            current_id: starting_id,
-        })
-        .is_err()
+    let accepted = box_ref.value.accept(&mut Dfs {
+        ref_graph,
+        current_id: starting_id,
+    });
+    if accepted.is_err() {
+        // whoever kept us out might have examined the rest of the value before it became part of a
+        // cycle, and not bring it up again
+        ref_graph.get_mut(&starting_id).unwrap().retry = true;
+    }
+    if accepted.is_err()
         || box_ref.generation.load(Ordering::Acquire) >= CURRENT_TAG.load(Ordering::Relaxed)
     {
         // box_ref.value was accessed while we worked
@@ -510,9 +516,12 @@ impl<'a> Visitor for Dfs<'a> {
                 // Save the previously visited ID, then carry on to the next one
                 swap(&mut new_id, &mut self.current_id);
 
-                if box_ref.value.accept(self).is_err()
-                    || box_ref.generation.load(Ordering::Acquire) >= current_tag
-                {
+                let accepted = box_ref.value.accept(self);
+                if accepted.is_err() {
+                    // as above, nobody else might bring it up again
+                    self.ref_graph.get_mut(&self.current_id).unwrap().retry = true;
+                }
+                if accepted.is_err() || box_ref.generation.load(Ordering::Acquire) >= current_tag {
                     // On failure, this means `**gc` is accessible, and should be marked
                     // as such
                     mark(self.current_id, self.ref_graph);
-- 
2.43.0


From bcdd7b232b7f7d660dcfdaf42820087972c688e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:42 +0000
Subject: [PATCH 16/17] fix: leave the tag of a handle alone when dereferencing
 it

A collection which began between loading the current tag and storing it in
the handle could already have visited the handle. The outdated tag then hid
that, so that the handle was counted twice when it was moved to another
place before the end of the collection.
---
 dumpster/src/sync/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 53554e3..b587a6b 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -591,8 +591,9 @@ impl<T: Collectable + Send + Sync + ?Sized> Deref for Gc<T> {
             This is caused by accessing a Gc during a Drop implementation, likely implying a bug in your code."
         ).as_ref()
         };
+        // (the tag of `self` is left alone: a collection which started since we loaded the current tag
+        // might have visited `self` already, and relies on recognizing it when it is moved)
         let current_tag = CURRENT_TAG.load(Ordering::Acquire);
-        self.tag.store(current_tag, Ordering::Release);
         box_ref.generation.store(current_tag, Ordering::Release);
         &box_ref.value
     }
-- 
2.43.0


From 05589783181658cd49eafd51c49d62a354b51f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:02:03 +0000
Subject: [PATCH 17/17] fix: order the reference count against the tag of a
 collection

Cloning a handle raises the count and then reads the current tag, and a
collection raises the tag and then reads the count. With acquire and release
orderings alone both could miss what the other one did, and the collection
destroyed a value which was still in use.
---
 dumpster/src/sync/collect.rs | 6 +++---
 dumpster/src/sync/mod.rs     | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 4fbb1b1..81eec79 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -295,7 +295,7 @@ impl GarbageTruck {
         let to_collect = take(&mut *self.contents.lock());
         let mut ref_graph = HashMap::with_capacity(to_collect.len());
 
-        CURRENT_TAG.fetch_add(1, Ordering::Release);
+        CURRENT_TAG.fetch_add(1, Ordering::SeqCst);
 
         for (_, TrashCan { ptr, dfs_fn }) in to_collect {
             unsafe { dfs_fn(ptr, &mut ref_graph) };
@@ -407,7 +407,7 @@ unsafe fn dfs<T: Collectable + Send + Sync + ?Sized>(
         box_ref.weak.fetch_sub(1, Ordering::Release);
         return;
     };
-    let strong_count = box_ref.strong.load(Ordering::Acquire);
+    let strong_count = box_ref.strong.load(Ordering::SeqCst);
     v.insert(AllocationInfo {
         ptr,
         weak_drop_fn: drop_weak_zero::<T>,
@@ -499,7 +499,7 @@ impl<'a> Visitor for Dfs<'a> {
             },
             Entry::Vacant(v) => {
                 // This allocation has never been visited by the reference graph builder
-                let strong_count = box_ref.strong.load(Ordering::Acquire);
+                let strong_count = box_ref.strong.load(Ordering::SeqCst);
                 box_ref.weak.fetch_add(1, Ordering::Acquire);
                 v.insert(AllocationInfo {
                     ptr: Erased::new(ptr),
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index b587a6b..5f9b3c4 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -436,10 +436,12 @@ where
             This means a Gc was accessed during a Drop implementation, likely implying a bug in your code.").as_ref()
         };
         // increment strong count before generation to ensure cleanup never underestimates ref count
-        box_ref.strong.fetch_add(1, Ordering::Acquire);
+        // (sequentially consistent, so that either a collection sees the new count, or we see its
+        // tag)
+        box_ref.strong.fetch_add(1, Ordering::SeqCst);
         box_ref
             .generation
-            .store(CURRENT_TAG.load(Ordering::Acquire), Ordering::Release);
+            .store(CURRENT_TAG.load(Ordering::SeqCst), Ordering::Release);
         notify_created_gc();
         // mark_clean(box_ref); // causes performance drops
         Gc {
-- 
2.43.0

