From 0b3ec1199e7be47c5f06d82dc9538a9f55212d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:58 +0000
Subject: [PATCH 01/64] fix: hashbrown lookups report a failing key comparison

RawTable::find and find_or_find_insert_slot treated an error from the
comparison callback as 'not equal', so a raising eql? was ignored and an
insert could add a second entry for the same key.
---
 hashbrown/src/raw/mod.rs | 41 ++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 46a7978..2f142c6 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -1011,17 +1011,25 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 3. The `find_or_find_insert_slot_inner` function returns the `index` of only the full bucket,
             //    which is in the range `0..self.buckets()` (since there is at least one empty `bucket` in
             //    the table), so calling `self.bucket(index)` and `Bucket::as_ref` is safe.
-            Ok(
-                match self
-                    .table
-                    .find_or_find_insert_slot_inner(hash, &mut |index| {
-                        eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
-                    }) {
-                    // SAFETY: See explanation above.
-                    Ok(index) => Ok(self.bucket(index)),
-                    Err(slot) => Err(slot),
-                },
-            )
+            //
+            // A failing `eq` ends the probe and is handed to the caller.
+            let mut failed = None;
+            let result = self
+                .table
+                .find_or_find_insert_slot_inner(hash, &mut |index| {
+                    eq(self.bucket(index).as_ref(), e, g).unwrap_or_else(|err| {
+                        failed = Some(err);
+                        true
+                    })
+                });
+            if let Some(err) = failed {
+                return Err(err);
+            }
+            Ok(match result {
+                // SAFETY: See explanation above.
+                Ok(index) => Ok(self.bucket(index)),
+                Err(slot) => Err(slot),
+            })
         }
     }
 
@@ -1093,9 +1101,18 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 1. The `find_inner` function returns the `index` of only the full bucket, which is in
             //    the range `0..self.buckets()`, so calling `self.bucket(index)` and `Bucket::as_ref`
             //    is safe.
+            //
+            // A failing `eq` ends the probe and is handed to the caller.
+            let mut failed = None;
             let result = self.table.find_inner(hash, &mut |index| {
-                eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
+                eq(self.bucket(index).as_ref(), e, g).unwrap_or_else(|err| {
+                    failed = Some(err);
+                    true
+                })
             });
+            if let Some(err) = failed {
+                return Err(err);
+            }
 
             // Avoid `Option::map` because it bloats LLVM IR.
             match result {
-- 
2.43.0


From d5c95b8b1a82f0c8b4125bb47c0f8f21acaf54a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:07 +0000
Subject: [PATCH 02/64] fix: rubymap removal from a one-entry map hashes the
 key

swap_remove_full and shift_remove_full compared the key of a lone entry
without hashing it, so a failing key hash went unreported and eql? was
consulted for keys whose hashes differ.
---
 rubymap/src/map.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/rubymap/src/map.rs b/rubymap/src/map.rs
index 1e42989..8d32300 100644
--- a/rubymap/src/map.rs
+++ b/rubymap/src/map.rs
@@ -984,14 +984,8 @@ where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
         match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
+            // As in `get_index_of`, a lone entry is hashed like any other.
+            [] => Ok(None),
             _ => {
                 let hash = self.hash(key, e, g)?;
                 self.core.swap_remove_full(hash, key, e, g)
@@ -1117,14 +1111,8 @@ where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
         match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
+            // As in `get_index_of`, a lone entry is hashed like any other.
+            [] => Ok(None),
             _ => {
                 let hash = self.hash(key, e, g)?;
                 self.core.shift_remove_full(hash, key, e, g)
-- 
2.43.0


From 4124dd3015af8d29dfc568871f1c3f339a3ef5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:09 +0000
Subject: [PATCH 03/64] fix: HashSet::get_or_insert_with reports a failing
 comparison

---
 hashbrown/src/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashbrown/src/set.rs b/hashbrown/src/set.rs
index 596e734..d62e9ec 100644
--- a/hashbrown/src/set.rs
+++ b/hashbrown/src/set.rs
@@ -685,7 +685,7 @@ where
             Err(slot) => {
                 let new = f(value);
                 assert!(
-                    value.equivalent(&new, e, g).unwrap_or(false), // TO_BE_FIXED
+                    value.equivalent(&new, e, g)?,
                     "new value is not equivalent"
                 );
                 unsafe { self.map.table.insert_in_slot(hash, slot, (new, ())) }
-- 
2.43.0


From 0699f235addeb749d9babb6baf9aa0a2a73f7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:52 +0000
Subject: [PATCH 04/64] fix: count the objects of salvaged pages as freed

---
 monoruby/src/alloc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/alloc.rs b/monoruby/src/alloc.rs
index 4deaeb1..f08e85f 100644
--- a/monoruby/src/alloc.rs
+++ b/monoruby/src/alloc.rs
@@ -1788,6 +1788,9 @@ impl<T: GCBox> Allocator<T> {
                     page.as_mut().drop_inner_cells();
                     self.free_pages.push_back(page);
                     self.total_freed_pages += 1;
+                    // `sweep` will not visit this page any more: its cells
+                    // are counted here (see the end of `sweep`).
+                    self.total_freed_objects += DATA_LEN;
                     #[cfg(feature = "gc-debug")]
                     eprintln!("salvage: {:?}", page);
                 }
@@ -1896,8 +1899,11 @@ impl<T: GCBox> Allocator<T> {
         self.free = anchor.next();
         // Cells that were already on the free list are swept again (the
         // sweep is idempotent), so they appear in both counts: what this
-        // collection actually reclaimed is the growth of the list.
-        self.total_freed_objects += c.saturating_sub(self.free_list_count);
+        // collection actually reclaimed is the growth of the list. (With
+        // salvaged pages, whose free cells left the list, the growth can be
+        // negative; `salvage_empty_pages` has counted all their cells.)
+        self.total_freed_objects += c;
+        self.total_freed_objects -= self.free_list_count;
         self.free_list_count = c;
         if let Some(log) = log {
             let gc = self.total_gc_counter as u32;
-- 
2.43.0


From 340fcb2e16a65c8027c6f29410739efc8de7a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:52 +0000
Subject: [PATCH 05/64] fix: a salvaged page put back into service counts as an
 allocated page

---
 monoruby/src/alloc.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/alloc.rs b/monoruby/src/alloc.rs
index f08e85f..4dbe245 100644
--- a/monoruby/src/alloc.rs
+++ b/monoruby/src/alloc.rs
@@ -1169,12 +1169,10 @@ impl<T: GCBox> Allocator<T> {
             // Allocate new page.
             self.used_in_current = 1;
             self.pages.push(self.current_page);
+            self.total_allocated_pages += 1;
             self.current_page = match self.free_pages.pop_front() {
                 Some(page) => page,
-                None => {
-                    self.total_allocated_pages += 1;
-                    self.new_page()
-                }
+                None => self.new_page(),
             };
             // A page entering service must start with a zeroed
             // old-generation bitmap: fresh arena pages are uninitialised,
-- 
2.43.0


From 73b260a3a2c7518a1d5cb1193a5878b43fa1dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:05 +0000
Subject: [PATCH 06/64] fix: live objects after a minor collection include the
 old ones

---
 monoruby/src/alloc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/alloc.rs b/monoruby/src/alloc.rs
index 4dbe245..248d794 100644
--- a/monoruby/src/alloc.rs
+++ b/monoruby/src/alloc.rs
@@ -1698,7 +1698,7 @@ impl<T: GCBox> Allocator<T> {
                 .iter_mut()
                 .for_each(|heap| heap.as_mut().seed_mark_from_old());
         }
-        self.mark_counter = 0;
+        self.mark_counter = self.old_count;
     }
 
     ///
-- 
2.43.0


From d3e9c45d0492144a9a3458ba59af8142ddb47b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:07 +0000
Subject: [PATCH 07/64] fix: expand brace groups after an unmatched closing
 brace

An unmatched `}` ended the scan, so `}{a,b}` was left as it was.
It is now kept as a literal and a later group is still expanded.
---
 monoruby/src/builtins/fnmatch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/fnmatch.rs b/monoruby/src/builtins/fnmatch.rs
index 4379a1a..3d2a570 100644
--- a/monoruby/src/builtins/fnmatch.rs
+++ b/monoruby/src/builtins/fnmatch.rs
@@ -289,7 +289,7 @@ pub(crate) fn expand_braces(pattern: &str, noescape: bool) -> Vec<String> {
                         }
                         return results;
                     }
-                    break;
+                    // An unmatched `}` is literal; a group may still follow.
                 }
             }
             _ => {}
-- 
2.43.0


From 56179ce5c9bf33c254d547d8d6ede3677124bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:07 +0000
Subject: [PATCH 08/64] fix: cloning an instance-variable table without storage

The clone of a table of capacity 0 asked for a block of size 0, which panics.
It is now another table without storage.
---
 monoruby/src/value/rvalue/ivar_table.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/value/rvalue/ivar_table.rs b/monoruby/src/value/rvalue/ivar_table.rs
index 4186c98..c8bbdd1 100644
--- a/monoruby/src/value/rvalue/ivar_table.rs
+++ b/monoruby/src/value/rvalue/ivar_table.rs
@@ -130,6 +130,9 @@ struct RawVec<T> {
 
 impl<T> Clone for RawVec<T> {
     fn clone(&self) -> Self {
+        if self.cap == 0 {
+            return Self::with_capacity(0);
+        }
         unsafe {
             let ptr = alloc(self.cap);
             ptr::copy_nonoverlapping(self.ptr.as_ptr(), ptr.as_ptr(), self.cap);
-- 
2.43.0


From cc722f27705622bbe1141138aafb5608d27090e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:08 +0000
Subject: [PATCH 09/64] fix: no nameless identifiers among all symbols

The identifier table started with 100 slots for 95 predefined names, so
all_symbols listed five identifiers with an empty name. Interning the empty
name gives yet another identifier. The table now starts with exactly the
predefined slots.
---
 monoruby/src/id_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/id_table.rs b/monoruby/src/id_table.rs
index aacb855..1de5aaf 100644
--- a/monoruby/src/id_table.rs
+++ b/monoruby/src/id_table.rs
@@ -460,7 +460,8 @@ impl IdentifierTable {
         let mut table = IdentifierTable {
             rev_table: HashMap::default(),
             rev_table_bytes: HashMap::default(),
-            table: vec![IdentName::Utf8(String::new()); 100],
+            // one slot per predefined id, the last being GVAR_PROGRAM_NAME
+            table: vec![IdentName::Utf8(String::new()); IdentId::GVAR_PROGRAM_NAME.to_usize()],
             enc_map: HashMap::default(),
         };
         table.set_id("initialize", IdentId::INITIALIZE);
-- 
2.43.0


From 2f6eb301d5f9872e998aec74497c18552b3b46e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:53 +0000
Subject: [PATCH 10/64] fix: keep the preemption timer alive when a restart
 races its exit

When the live thread count dropped below two and rose again just as the
timer thread had seen the stop request, the restart found the thread not
yet finished, started no new one, and the old one exited. No thread was
preempted from then on until the count changed again.

The decision to exit is now one atomic step that a restart either takes
back or sees.
---
 monoruby/src/preempt.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/monoruby/src/preempt.rs b/monoruby/src/preempt.rs
index c5c98b4..40a7701 100644
--- a/monoruby/src/preempt.rs
+++ b/monoruby/src/preempt.rs
@@ -35,7 +35,7 @@
 //!   mode, the scheduling analog of `gc-stress`.
 
 use std::cell::RefCell;
-use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
+use std::sync::atomic::{AtomicU8, AtomicU32, Ordering};
 use std::sync::{Arc, Mutex};
 
 use crate::poll_flag::PREEMPT_LANE;
@@ -43,15 +43,32 @@ use crate::poll_flag::PREEMPT_LANE;
 /// Timeslice; the same order of magnitude as CRuby's thread quantum.
 const TICK: std::time::Duration = std::time::Duration::from_millis(10);
 
+/// No timer thread, or one that has already decided to exit.
+const IDLE: u8 = 0;
+/// The timer thread is to keep ticking.
+const RUNNING: u8 = 1;
+/// The timer thread is to exit at its next tick.
+const STOPPING: u8 = 2;
+
 struct Shared {
-    /// Tells the timer thread to exit at its next tick.
-    stop: AtomicBool,
+    /// `IDLE`, `RUNNING` or `STOPPING`. The timer's decision to exit is the
+    /// atomic step `STOPPING` -> `IDLE`, so a restart racing it either takes
+    /// the stop back or sees `IDLE` and starts a new thread.
+    timer: AtomicU8,
     /// Address of this interpreter's poll word (0 = detached). The mutex
     /// makes timer writes and detachment mutually exclusive, so the
     /// timer can never write into freed JIT memory.
     flag_addr: Mutex<usize>,
 }
 
+impl Shared {
+    fn stop(&self) {
+        let _ =
+            self.timer
+                .compare_exchange(RUNNING, STOPPING, Ordering::Relaxed, Ordering::Relaxed);
+    }
+}
+
 struct State {
     shared: Arc<Shared>,
     timer: Option<std::thread::JoinHandle<()>>,
@@ -61,7 +78,7 @@ thread_local! {
     /// Per interpreter OS thread, like `ALLOC` / `CODEGEN` / `SCHEDULER`.
     static STATE: RefCell<State> = RefCell::new(State {
         shared: Arc::new(Shared {
-            stop: AtomicBool::new(false),
+            timer: AtomicU8::new(IDLE),
             flag_addr: Mutex::new(0),
         }),
         timer: None,
@@ -98,7 +115,7 @@ pub(crate) fn codegen_dropped() {
     let _ = STATE.try_with(|st| {
         let st = st.borrow();
         *st.shared.flag_addr.lock().unwrap() = 0;
-        st.shared.stop.store(true, Ordering::Relaxed);
+        st.shared.stop();
     });
 }
 
@@ -113,9 +130,7 @@ pub(crate) fn on_thread_count(live: usize) {
     STATE.with(|st| {
         let mut st = st.borrow_mut();
         if live >= 2 {
-            st.shared.stop.store(false, Ordering::Relaxed);
-            let running = st.timer.as_ref().is_some_and(|t| !t.is_finished());
-            if !running {
+            if st.shared.timer.swap(RUNNING, Ordering::Relaxed) == IDLE {
                 if let Some(t) = st.timer.take() {
                     let _ = t.join();
                 }
@@ -123,7 +138,7 @@ pub(crate) fn on_thread_count(live: usize) {
                 st.timer = Some(std::thread::spawn(move || timer_loop(shared)));
             }
         } else {
-            st.shared.stop.store(true, Ordering::Relaxed);
+            st.shared.stop();
         }
     });
 }
@@ -131,7 +146,11 @@ pub(crate) fn on_thread_count(live: usize) {
 fn timer_loop(shared: Arc<Shared>) {
     loop {
         std::thread::sleep(TICK);
-        if shared.stop.load(Ordering::Relaxed) {
+        if shared
+            .timer
+            .compare_exchange(STOPPING, IDLE, Ordering::Relaxed, Ordering::Relaxed)
+            .is_ok()
+        {
             return;
         }
         let addr = shared.flag_addr.lock().unwrap();
-- 
2.43.0


From a19a9dc5be27f7cb8aaf91298b7c43d97208aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:06 +0000
Subject: [PATCH 11/64] fix: drop a descriptor wait's time limit when the wait
 ends

---
 monoruby/src/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 7937142..8d61228 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -1011,7 +1011,11 @@ pub(crate) fn wait_fds(
 
 fn unregister_io_waiter(thread: Value) {
     SCHEDULER.with(|s| {
-        s.borrow_mut().io_waiters.retain(|(_, _, t)| *t != thread);
+        let mut s = s.borrow_mut();
+        s.io_waiters.retain(|(_, _, t)| *t != thread);
+        // A waiter woken by its fd leaves its time limit behind; it must
+        // not end whatever the thread parks on next.
+        s.sleepers.retain(|(_, t)| *t != thread);
     });
 }
 
-- 
2.43.0


From 18472f9ee8abb5a7b78324786f1aa34ab9800e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:06 +0000
Subject: [PATCH 12/64] fix: do not panic at exit when the main thread has a
 pending interrupt

---
 monoruby/src/scheduler.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 8d61228..2e37ae3 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -559,9 +559,7 @@ pub(crate) fn terminate_all(vm: &mut Executor, globals: &mut Globals) {
         }
         // An error delivered to the main thread here has nowhere to go —
         // the script is already over.
-        if pass(vm, globals).is_err() {
-            let _ = vm.take_error();
-        }
+        let _ = pass(vm, globals);
     }
 }
 
-- 
2.43.0


From 7ec651404f8efe69be6cf1310f4922d950538b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:06 +0000
Subject: [PATCH 13/64] fix: keep a sleeping main thread asleep when a
 forwarded exception is masked

---
 monoruby/src/scheduler.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 2e37ae3..b070f39 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -1667,12 +1667,16 @@ fn forward_exception_to_main(globals: &mut Globals, thread: Value) -> bool {
         .pending
         .push_back(PendingInterrupt::Raise(err));
     // Wake a parked main so delivery happens promptly (mirrors
-    // `interrupt`); delivery itself still honors handle_interrupt masks.
+    // `interrupt`, which leaves it parked when everything queued is masked
+    // `:never`); delivery itself still honors handle_interrupt masks.
+    let wake = wake_worthy(&globals.store, main);
     let inner = main.as_thread_inner_mut();
-    if matches!(
-        inner.state(),
-        ThreadState::Sleeping | ThreadState::Joining | ThreadState::IoWaiting
-    ) {
+    if wake
+        && matches!(
+            inner.state(),
+            ThreadState::Sleeping | ThreadState::Joining | ThreadState::IoWaiting
+        )
+    {
         inner.state = ThreadState::Runnable;
     }
     true
-- 
2.43.0


From c1a0ee9f0fbd535efad5601f64ac4f01e789b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:06 +0000
Subject: [PATCH 14/64] fix: forget the queue entries of the other threads in a
 forked child

---
 monoruby/src/scheduler.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index b070f39..73b8dac 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -350,6 +350,13 @@ pub(crate) fn fork_child_reset_threads(vm: &mut Executor) {
                 t.as_thread_inner_mut().mark_dead_for_fork();
             }
         }
+        // Nothing may bring them back: a dead thread left in a queue would
+        // be dispatched like any other.
+        let mut s = s.borrow_mut();
+        s.threads.retain(|t| Some(*t) == cur);
+        s.ready.retain(|t| Some(*t) == cur);
+        s.sleepers.retain(|(_, t)| Some(*t) == cur);
+        s.io_waiters.retain(|(_, _, t)| Some(*t) == cur);
     });
 }
 
-- 
2.43.0


From ca4eb7e956083dbdfc0cdb9d831e697e1d2bace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:06 +0000
Subject: [PATCH 15/64] fix: hand a drained completion wakeup on to waiters
 that parked meanwhile

---
 monoruby/src/native_pool.rs | 12 ++++++++++--
 monoruby/src/scheduler.rs   | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/native_pool.rs b/monoruby/src/native_pool.rs
index de60fb3..f42f31e 100644
--- a/monoruby/src/native_pool.rs
+++ b/monoruby/src/native_pool.rs
@@ -96,12 +96,20 @@ pub(crate) fn wake_fd() -> i32 {
 
 /// Drain the completion pipe (called by a woken waiter before it
 /// re-checks its ticket; the pipe is level-triggered, so leftover bytes
-/// would make the poller spin).
+/// would make the poller spin). The bytes may have announced a result
+/// whose waiter parked after the poller woke us, so hand the wakeup on to
+/// every waiter still parked; each re-checks its own ticket.
 pub(crate) fn drain() {
     PIPE.with(|p| {
         let mut buf = [0u8; 64];
+        let mut drained = false;
         // SAFETY: reading our own non-blocking pipe read end.
-        while unsafe { libc::read(p.0, buf.as_mut_ptr() as _, buf.len()) } > 0 {}
+        while unsafe { libc::read(p.0, buf.as_mut_ptr() as _, buf.len()) } > 0 {
+            drained = true;
+        }
+        if drained {
+            crate::scheduler::wake_fd_waiters(p.0);
+        }
     });
 }
 
diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 73b8dac..aceb798 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -1014,6 +1014,26 @@ pub(crate) fn wait_fds(
     }
 }
 
+/// Make every thread parked on `fd` runnable, as the poller does when the
+/// fd is ready.
+pub(crate) fn wake_fd_waiters(fd: i32) {
+    SCHEDULER.with(|s| {
+        let mut s = s.borrow_mut();
+        let main = s.main;
+        let waiters: Vec<Value> =
+            s.io_waiters.iter().filter(|(f, _, _)| *f == fd).map(|(_, _, t)| *t).collect();
+        for mut t in waiters {
+            let inner = t.as_thread_inner_mut();
+            if inner.state() == ThreadState::IoWaiting {
+                inner.state = ThreadState::Runnable;
+                if Some(t) != main {
+                    s.ready.push_back(t);
+                }
+            }
+        }
+    });
+}
+
 fn unregister_io_waiter(thread: Value) {
     SCHEDULER.with(|s| {
         let mut s = s.borrow_mut();
-- 
2.43.0


From 388fe72b5cac518234b1074077ec073495092ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:40 +0000
Subject: [PATCH 16/64] fix: keep pushed-back bytes when reading a line is
 interrupted

A line read that starts with bytes already in the pushback buffer dropped
them when the underlying read was interrupted by a signal or would block, so
the retried read returned the line without its beginning.
---
 monoruby/src/value/rvalue/io.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index b91ba9e..f22464a 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1489,8 +1489,16 @@ impl IoInner {
                 }
                 None => {
                     let mut line = self.take_pushback(None);
-                    if let Some(rest) = self.read_line_bytes_underlying()? {
-                        line.extend_from_slice(&rest);
+                    match self.read_line_bytes_underlying() {
+                        Ok(Some(rest)) => line.extend_from_slice(&rest),
+                        Ok(None) => {}
+                        Err(err) => {
+                            // See `read_more_preserving`.
+                            if err.is_signal_interrupt() || err.is_would_block_interrupt() {
+                                let _ = self.unget(&line);
+                            }
+                            return Err(err);
+                        }
                     }
                     // `line` is non-empty: the pushback supplied at least
                     // one byte.
-- 
2.43.0


From 9cbb9a87232d6ce546b908407188c87850b10c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:40 +0000
Subject: [PATCH 17/64] fix: keep what an interrupted read of standard input
 has consumed

Standard input has no pushback buffer, so the partial data of a read or gets
that was interrupted by a signal was dropped, and reading a paragraph lost the
first byte of the next one. Put the bytes back into the shared read buffer.
---
 monoruby/src/value/rvalue/io.rs     | 50 ++++++++++++++++++++++-------
 monoruby/src/value/rvalue/io/buf.rs | 15 +++++++++
 2 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index f22464a..84a0a7d 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1069,6 +1069,18 @@ impl IoInner {
         }
     }
 
+    /// Give back bytes an unfinished read consumed, so that its retry sees
+    /// them first. Unlike [`Self::unget`] this also serves stdin, whose
+    /// bytes go back into the shared read buffer.
+    fn restore(&mut self, bytes: &[u8]) {
+        match &self.kind {
+            IoKind::Stdin => stdin_buf().unread(bytes),
+            _ => {
+                let _ = self.unget(bytes);
+            }
+        }
+    }
+
     /// Take up to `max` bytes (all if `None`) from the front of the
     /// pushback buffer.
     fn take_pushback(&mut self, max: Option<usize>) -> Vec<u8> {
@@ -1140,7 +1152,7 @@ impl IoInner {
                 if (err.is_signal_interrupt() || err.is_would_block_interrupt())
                     && !out.is_empty()
                 {
-                    let _ = self.unget(&out);
+                    self.restore(&out);
                 }
                 Err(err)
             }
@@ -1153,10 +1165,8 @@ impl IoInner {
         // read helpers), bytes already consumed from the fd are pushed back
         // so that the retried read (after a `Signal.trap` handler ran, or
         // after the green thread was parked until the fd became ready)
-        // returns them first and no data is lost. `pushback` is `None` for
-        // Stdin, which has no pushback cell — an interrupted stdin read may
-        // drop the partial data, like the pre-existing ungetc limitation
-        // there.
+        // returns them first and no data is lost. Stdin has no pushback
+        // cell; its partial data goes back into the shared read buffer.
         let interrupted = |kind: std::io::ErrorKind,
                            partial: Vec<u8>,
                            pushback: Option<&RefCell<Vec<u8>>>|
@@ -1172,14 +1182,20 @@ impl IoInner {
             IoKind::Closed(..) => return Err(MonorubyErr::ioerr("closed stream")),
             IoKind::Stdin => {
                 let mut buf = vec![];
+                let mut stdin = stdin_buf();
                 let res = if let Some(length) = length {
-                    read_upto(&mut *stdin_buf(), length, &mut buf)
+                    read_upto(&mut *stdin, length, &mut buf)
                 } else {
-                    read_all(&mut *stdin_buf(), &mut buf)
+                    read_all(&mut *stdin, &mut buf)
                 };
                 match res {
                     Ok(()) => Ok(buf),
-                    Err(e) => Err(map_read_err(e, MonorubyErr::runtimeerr)),
+                    Err(e) => {
+                        if is_interrupt_kind(e.kind()) {
+                            stdin.unread(&buf);
+                        }
+                        Err(map_read_err(e, MonorubyErr::runtimeerr))
+                    }
                 }
             }
             IoKind::Stdout => Err(MonorubyErr::argumenterr("can't read from $stdin")),
@@ -1526,8 +1542,18 @@ impl IoInner {
         };
         let size = match &mut self.kind {
             IoKind::Closed(..) => return Err(MonorubyErr::ioerr("closed stream")),
-            IoKind::Stdin => read_until_step(&mut *stdin_buf(), b'\n', &mut buf)
-                .map_err(|e| map_read_err(e, MonorubyErr::runtimeerr))?,
+            IoKind::Stdin => {
+                let mut stdin = stdin_buf();
+                match read_until_step(&mut *stdin, b'\n', &mut buf) {
+                    Ok(n) => n,
+                    Err(e) => {
+                        if is_interrupt_kind(e.kind()) {
+                            stdin.unread(&buf);
+                        }
+                        return Err(map_read_err(e, MonorubyErr::runtimeerr));
+                    }
+                }
+            }
             IoKind::Stdout => return Err(MonorubyErr::argumenterr("can't read from $stdin")),
             IoKind::Stderr => return Err(MonorubyErr::argumenterr("can't read from $stderr")),
             IoKind::File(file) => {
@@ -1580,7 +1606,7 @@ impl IoInner {
                 if (err.is_signal_interrupt() || err.is_would_block_interrupt())
                     && !acc.is_empty()
                 {
-                    let _ = self.unget(acc);
+                    self.restore(acc);
                 }
                 Err(err)
             }
@@ -1665,7 +1691,7 @@ impl IoInner {
                         match self.read1_preserving(&buf)? {
                             Some(b'\n') => continue,
                             Some(b) => {
-                                let _ = self.unget(&[b]);
+                                self.restore(&[b]);
                                 break;
                             }
                             None => break,
diff --git a/monoruby/src/value/rvalue/io/buf.rs b/monoruby/src/value/rvalue/io/buf.rs
index a76ea44..5ba897d 100644
--- a/monoruby/src/value/rvalue/io/buf.rs
+++ b/monoruby/src/value/rvalue/io/buf.rs
@@ -140,6 +140,21 @@ impl<T> IoReader<T> {
         self.pos = 0;
         self.cap = 0;
     }
+
+    /// Put `bytes` back in front of what is still unconsumed.
+    pub(crate) fn unread(&mut self, bytes: &[u8]) {
+        if bytes.is_empty() {
+            return;
+        }
+        let mut buf = bytes.to_vec();
+        buf.extend_from_slice(self.buffer());
+        self.pos = 0;
+        self.cap = buf.len();
+        if buf.len() < IO_BUF_CAPA {
+            buf.resize(IO_BUF_CAPA, 0);
+        }
+        self.buf = buf.into_boxed_slice();
+    }
 }
 
 impl<T: Read> Read for IoReader<T> {
-- 
2.43.0


From 146d4dde5a063c4a691ebc94a61e6a557cd419f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:40 +0000
Subject: [PATCH 18/64] fix: deliver read-ahead data first in sysread and
 read_nonblock

On a pipe, socket, child process or standard input the buffered bytes cannot be
given back by seeking, and sysread and read_nonblock skipped over them.
---
 monoruby/src/value/rvalue/io.rs | 61 ++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 84a0a7d..0543ae6 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -377,6 +377,15 @@ fn read_partial_chunk<T: Read>(
     Ok(chunk)
 }
 
+/// Up to `max` of the bytes `reader` has read ahead. A stream that cannot
+/// be seeked back has to hand these out before its fd is read directly.
+fn take_read_ahead<T: Read>(reader: &mut IoReader<T>, max: usize) -> Vec<u8> {
+    let n = reader.buffer().len().min(max);
+    let chunk = reader.buffer()[..n].to_vec();
+    reader.consume(n);
+    chunk
+}
+
 /// How many more bytes are needed to complete a UTF-8 character that
 /// `buf` may end in the middle of. 0 when the tail is a complete
 /// character (or invalid, in which case there is nothing to complete).
@@ -1292,12 +1301,16 @@ impl IoInner {
                 return Err(MonorubyErr::ioerr("not opened for reading"));
             }
             IoKind::Stdin => {
-                // `sysread` bypasses the buffer (CRuby raises if anything
-                // is buffered; monoruby just reads the fd directly).
-                let mut buf = vec![0u8; need];
-                let n = read_step(stdin_buf().get_mut(), &mut buf)
-                    .map_err(|e| map_read_err(e, MonorubyErr::runtimeerr))?;
-                buf.truncate(n);
+                // `sysread` bypasses the buffer once it is empty (CRuby
+                // raises if anything is buffered).
+                let mut stdin = stdin_buf();
+                let mut buf = take_read_ahead(&mut *stdin, need);
+                if buf.is_empty() {
+                    buf.resize(need, 0);
+                    let n = read_step(stdin.get_mut(), &mut buf)
+                        .map_err(|e| map_read_err(e, MonorubyErr::runtimeerr))?;
+                    buf.truncate(n);
+                }
                 buf
             }
             IoKind::File(file) => {
@@ -1309,9 +1322,15 @@ impl IoInner {
                 // Sync the underlying fd to the logical position and
                 // discard the BufReader buffer. Best-effort: pipe /
                 // socket fds (also stored as `File`) are not seekable
-                // (`ESPIPE`), in which case the single direct read
-                // below simply returns whatever is available.
+                // (`ESPIPE`), in which case what was read ahead comes
+                // first, or else the single direct read below simply
+                // returns whatever is available.
                 let _ = reader.seek(SeekFrom::Current(0));
+                let ahead = take_read_ahead(reader, need);
+                if !ahead.is_empty() {
+                    out.extend(ahead);
+                    return Ok(out);
+                }
                 let mut buf = vec![0u8; need];
                 let n = match read_step(reader.get_mut(), &mut buf) {
                     Ok(n) => n,
@@ -1335,6 +1354,11 @@ impl IoInner {
                     Some(r) => r,
                     None => return Err(MonorubyErr::ioerr("not opened for reading")),
                 };
+                let ahead = take_read_ahead(reader, need);
+                if !ahead.is_empty() {
+                    out.extend(ahead);
+                    return Ok(out);
+                }
                 let mut buf = vec![0u8; need];
                 let n = match read_step(reader.get_mut(), &mut buf) {
                     Ok(n) => n,
@@ -1383,10 +1407,23 @@ impl IoInner {
         }
         // Best-effort: sync a seekable File's BufReader to its logical
         // position (discarding its buffer) so the raw read below is at
-        // the right offset; pipes/sockets aren't seekable and skip it.
-        if let IoKind::File(file) = &mut self.kind {
-            let reader = &mut *Rc::get_mut(file).unwrap().reader;
-            let _ = reader.seek(SeekFrom::Current(0));
+        // the right offset; pipes/sockets aren't seekable and hand out
+        // what they read ahead first.
+        let ahead = match &mut self.kind {
+            IoKind::File(file) => {
+                let reader = &mut *Rc::get_mut(file).unwrap().reader;
+                let _ = reader.seek(SeekFrom::Current(0));
+                take_read_ahead(reader, maxlen)
+            }
+            IoKind::Popen(popen) => match Rc::get_mut(popen).unwrap().reader.as_mut() {
+                Some(reader) => take_read_ahead(reader, maxlen),
+                None => vec![],
+            },
+            IoKind::Stdin => take_read_ahead(&mut *stdin_buf(), maxlen),
+            _ => vec![],
+        };
+        if !ahead.is_empty() {
+            return Ok(NonblockRead::Data(ahead));
         }
         let fd = self.fileno()?;
         self.set_nonblock()?;
-- 
2.43.0


From dd1fe8002ddb96e88718c3889b291ed81eff36df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:40 +0000
Subject: [PATCH 19/64] fix: account for pushed-back bytes when seeking

A seek left bytes pushed back by ungetc or ungetbyte in place, so the next read
returned them instead of the data at the new position, and a relative seek
started from the wrong place.
---
 monoruby/src/value/rvalue/io.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 0543ae6..97a320c 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1857,7 +1857,21 @@ impl IoInner {
                         _ => std::io::Error::from_raw_os_error(EINTR),
                     });
                 }
-                Rc::get_mut(file).unwrap().reader.seek(seek_from)
+                let file = Rc::get_mut(file).unwrap();
+                // `Current(0)` only asks for the position; its callers
+                // account for the pushback themselves.
+                if whence == 1 && offset == 0 {
+                    return file.reader.seek(seek_from);
+                }
+                // Pushed-back bytes are still ahead of the logical
+                // position, and moving it gives them up.
+                let pushed = file.pushback.get_mut().len() as i64;
+                let pos = file.reader.seek(match seek_from {
+                    SeekFrom::Current(n) => SeekFrom::Current(n.saturating_sub(pushed)),
+                    seek_from => seek_from,
+                })?;
+                file.pushback.get_mut().clear();
+                Ok(pos)
             }
             IoKind::Closed(..) => Err(std::io::Error::from_raw_os_error(9)), // EBADF
             _ => Err(std::io::Error::from_raw_os_error(ESPIPE)),
-- 
2.43.0


From c6c674f80829f2824919018fd892891c0c58c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:40 +0000
Subject: [PATCH 20/64] fix: write at the logical position after a buffered
 read

A write to a file opened for reading and writing went to wherever the read-ahead
had left the descriptor instead of right after the data read so far.
---
 monoruby/src/value/rvalue/io.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 97a320c..896da43 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -460,6 +460,29 @@ impl FileDescriptor {
         let mut sink: &std::fs::File = self.reader.get_ref();
         wbuf.drain(&mut sink, &signal_pending)
     }
+
+    /// Before a write: move the fd back from what was read ahead to the
+    /// logical position, giving up any pushback (CRuby's `io_unread`). A
+    /// stream that cannot seek reads and writes independently and keeps
+    /// both.
+    fn unread_before_write(&mut self) -> std::result::Result<(), DrainErr> {
+        let pushed = self.pushback.get_mut().len() as i64;
+        if (pushed == 0 && self.reader.buffer().is_empty())
+            || self.reader.get_mut().stream_position().is_err()
+        {
+            return Ok(());
+        }
+        self.drain_wbuf()?;
+        let reader = &mut *self.reader;
+        if reader
+            .seek(SeekFrom::Current(-pushed))
+            .or_else(|_| reader.seek(SeekFrom::Current(0)))
+            .is_ok()
+        {
+            self.pushback.get_mut().clear();
+        }
+        Ok(())
+    }
 }
 
 impl Drop for FileDescriptor {
@@ -985,6 +1008,9 @@ impl IoInner {
             IoKind::Stdout => stdout_buf().write(data, progress, &signal_pending),
             IoKind::Stderr => stderr_buf().write(data, progress, &signal_pending),
             IoKind::File(file) => {
+                if let Some(file) = Rc::get_mut(file) {
+                    file.unread_before_write().map_err(|e| drain_err(e, store))?;
+                }
                 let mut wbuf = file.wbuf.borrow_mut();
                 let mut sink: &std::fs::File = file.reader.get_ref();
                 wbuf.write(&mut sink, data, progress, &signal_pending)
-- 
2.43.0


From 0f9d74b79fad6e37ded611f730e20eb3054afb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:40 +0000
Subject: [PATCH 21/64] fix: send buffered output before a non-blocking write

write_nonblock overtook data still in the write buffer, ignored read-ahead, and
on a child process wrote to the descriptor its output is read from.
---
 monoruby/src/value/rvalue/io.rs | 38 +++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 896da43..30f648d 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1404,10 +1404,9 @@ impl IoInner {
         Ok(out)
     }
 
-    /// Set `O_NONBLOCK` on the underlying fd (idempotent).
-    fn set_nonblock(&self) -> Result<()> {
-        let fd = self.fileno()?;
-        // SAFETY: fd is a valid descriptor for the lifetime of this IO.
+    /// Set `O_NONBLOCK` on an underlying fd (idempotent).
+    fn set_nonblock(fd: i32) -> Result<()> {
+        // SAFETY: fd is a valid descriptor for the lifetime of its IO.
         unsafe {
             let flags = libc::fcntl(fd, libc::F_GETFL);
             if flags < 0 || libc::fcntl(fd, libc::F_SETFL, flags | libc::O_NONBLOCK) < 0 {
@@ -1452,7 +1451,7 @@ impl IoInner {
             return Ok(NonblockRead::Data(ahead));
         }
         let fd = self.fileno()?;
-        self.set_nonblock()?;
+        Self::set_nonblock(fd)?;
         let mut buf = vec![0u8; maxlen];
         // SAFETY: fd is valid; buf has `maxlen` bytes of capacity.
         let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, maxlen) };
@@ -1479,8 +1478,33 @@ impl IoInner {
         if !self.is_writable() {
             return Err(MonorubyErr::ioerr("not opened for writing"));
         }
-        let fd = self.fileno()?;
-        self.set_nonblock()?;
+        let fd = self.wait_fd_for(libc::POLLOUT)?;
+        Self::set_nonblock(fd)?;
+        // What is already buffered comes first. The fd no longer blocks,
+        // so there is no need to stop for a pending signal.
+        let drained = match &mut self.kind {
+            IoKind::Stdout => stdout_buf().drain(&|| false),
+            IoKind::Stderr => stderr_buf().drain(&|| false),
+            IoKind::File(file) => {
+                let mut sink: &std::fs::File = file.reader.get_ref();
+                file.wbuf.borrow_mut().drain(&mut sink, &|| false)
+            }
+            IoKind::Popen(popen) => match Rc::get_mut(popen).unwrap().writer.as_mut() {
+                Some(writer) => writer.drain(&|| false),
+                None => Ok(()),
+            },
+            IoKind::Stdin | IoKind::Closed(..) => Ok(()),
+        };
+        match drained {
+            Err(DrainErr::WouldBlock) => return Ok(NonblockWrite::WouldBlock),
+            Err(e) => return Err(drain_err(e, store)),
+            Ok(()) => {}
+        }
+        if let IoKind::File(file) = &mut self.kind
+            && let Some(file) = Rc::get_mut(file)
+        {
+            file.unread_before_write().map_err(|e| drain_err(e, store))?;
+        }
         // SAFETY: fd is valid; bytes is a valid buffer of `bytes.len()`.
         let n = unsafe {
             libc::write(fd, bytes.as_ptr() as *const libc::c_void, bytes.len())
-- 
2.43.0


From d4586bda8fe3b09d43ec8901918cee99471f7825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:41 +0000
Subject: [PATCH 22/64] fix: send buffered output of a stream that is dropped
 unclosed

A File that was collected without being closed lost whatever was still in its
write buffer.
---
 monoruby/src/value/rvalue/io.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 30f648d..ccc55ca 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -488,6 +488,11 @@ impl FileDescriptor {
 impl Drop for FileDescriptor {
     fn drop(&mut self) {
         let fd = self.reader.get_ref().as_raw_fd();
+        // A stream that was never closed still owes its buffered output
+        // (CRuby flushes when it finalizes an IO); there is nowhere left to
+        // report a failure to.
+        let mut sink: &std::fs::File = self.reader.get_ref();
+        let _ = self.wbuf.get_mut().drain(&mut sink, &|| false);
         // SAFETY: `reader` is wrapped in `ManuallyDrop` and is only taken
         // here, exactly once, in `Drop`. After this, `self.reader` must not
         // be accessed.
-- 
2.43.0


From de1a7f2f04a7069b9a9e4ba0a980e96002796aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:41 +0000
Subject: [PATCH 23/64] fix: send buffered output before close_write on a child
 process

With sync turned off, close_write discarded the data not yet sent.
---
 monoruby/src/value/rvalue/io.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index ccc55ca..e48ec38 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -869,6 +869,9 @@ impl IoInner {
     pub fn popen_close_write(&mut self) {
         if let IoKind::Popen(popen) = &mut self.kind {
             let popen = Rc::get_mut(popen).unwrap();
+            if let Some(writer) = popen.writer.as_mut() {
+                let _ = writer.drain(&|| false);
+            }
             popen.writer = None;
             if popen.reader.is_none() {
                 self.close_kind();
-- 
2.43.0


From b009dc5fdd7ebb4c1eaaf5f62f0c76a3d3e0a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:31 +0000
Subject: [PATCH 24/64] fix: refuse to replace a hash's content while it is
 being traversed

---
 monoruby/src/builtins/hash.rs     |  2 +-
 monoruby/src/value/rvalue/hash.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index dba023e..2fde549 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -1685,7 +1685,7 @@ fn clear(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let mut self_ = lfp.self_val().as_hash_mut(&globals.store)?;
     let arg = lfp.arg(0).coerce_to_hash(vm, globals)?;
-    self_.replace_inner(arg.inner().clone_inner());
+    self_.replace_inner(arg.inner().clone_inner())?;
 
     Ok(lfp.self_val())
 }
diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index a3fd368..e7a2bc4 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -2029,15 +2029,19 @@ impl Hashmap {
     /// Replace the whole content (`Hash#replace`). The source's
     /// representation, identity-mode, and r2k bits replace the
     /// receiver's (`Hash#replace` transfers the compare_by_identity
-    /// flag in both directions). Bulk barrier: the new content may
-    /// reference young objects.
-    pub fn replace_inner(&mut self, inner: HashmapInner) {
+    /// flag in both directions). Raises while a traversal is in
+    /// progress: its iteration count lives in the content being
+    /// replaced. Bulk barrier: the new content may reference young
+    /// objects.
+    pub fn replace_inner(&mut self, inner: HashmapInner) -> Result<()> {
+        self.check_iter()?;
         let (flags, body) = inner.into_parts();
         let mut m = self.0.as_hashmap_inner_mut();
         m.install(flags & REP_MASK, body);
         let f = m.flags();
         m.set_flags((f & !(IDENT_BIT | R2K_BIT)) | (flags & (IDENT_BIT | R2K_BIT)));
         self.0.write_barrier_bulk();
+        Ok(())
     }
 
     /// Set / clear the ruby2_keywords flag (a plain bit — no GC edge,
-- 
2.43.0


From 2182aca93ed80017d7704401ade728b053beafe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:31 +0000
Subject: [PATCH 25/64] fix: make the digest of a hash independent of the order
 of its pairs

---
 monoruby/src/value/rvalue/hash.rs | 44 ++++++++++++-------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index e7a2bc4..3aedc6a 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -1118,35 +1118,25 @@ impl RubyHash<Executor, Globals, MonorubyErr> for HashRef<'_> {
         e: &mut Executor,
         g: &mut Globals,
     ) -> Result<()> {
-        match self.content() {
-            ContentRef::Inline(pairs) => {
-                if self.is_ident_inline() {
-                    // digest keys by id, matching `IdentKey::ruby_hash`
-                    // so inline and boxed identity hashes digest alike
-                    for (key, val) in pairs {
-                        key.id().hash(state);
-                        val.ruby_hash(state, e, g)?;
-                    }
-                } else {
-                    for (key, val) in pairs {
-                        key.ruby_hash(state, e, g)?;
-                        val.ruby_hash(state, e, g)?;
-                    }
-                }
-            }
-            ContentRef::Map(h) => {
-                for (key, val) in h.iter() {
-                    key.ruby_hash(state, e, g)?;
-                    val.ruby_hash(state, e, g)?;
-                }
-            }
-            ContentRef::Ident(h) => {
-                for (key, val) in h.iter() {
-                    key.ruby_hash(state, e, g)?;
-                    val.ruby_hash(state, e, g)?;
-                }
+        use std::hash::Hasher;
+        // `eql` ignores the order of the pairs, so the digest must not
+        // depend on it either: every live pair is digested on its own and
+        // the pair digests are summed. Identity-keyed hashes digest their
+        // keys by id, whether inline or boxed.
+        let ident = self.is_compare_by_identity();
+        let mut sum = 0u64;
+        for (key, val) in self.iter() {
+            let mut pair = crate::value::seeded_hasher();
+            if ident {
+                key.id().hash(&mut pair);
+            } else {
+                key.ruby_hash(&mut pair, e, g)?;
             }
+            val.ruby_hash(&mut pair, e, g)?;
+            sum = sum.wrapping_add(pair.finish());
         }
+        self.len().hash(state);
+        sum.hash(state);
         Ok(())
     }
 }
-- 
2.43.0


From ff80236a14ac00e854b7c8d00873069e387f4df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:31 +0000
Subject: [PATCH 26/64] fix: forget deleted entries when an empty hash changes
 its comparison mode

---
 monoruby/src/value/rvalue/hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index 3aedc6a..3b00680 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -1646,6 +1646,7 @@ impl<'a> HashRefMut<'a> {
                 let f = self.flags();
                 self.set_flags(f | IDENT_BIT);
             } else if !self.as_ref().is_compare_by_identity() {
+                self.compact_if_dirty();
                 self.boxed_mut().content = HashContent::IdentMap(Box::new(RubyMap::default()));
             }
         } else if self.is_inline() {
@@ -1653,6 +1654,7 @@ impl<'a> HashRefMut<'a> {
             self.set_flags(f & !IDENT_BIT);
         } else if self.as_ref().is_compare_by_identity() {
             if self.boxed_mut().default.is_some() {
+                self.compact_if_dirty();
                 self.boxed_mut().content = HashContent::Map(Box::new(RubyMap::default()));
             } else {
                 self.install(
-- 
2.43.0


From ecb2b04e1a29e8ea52d5da54b9cccdc096709f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:36 +0000
Subject: [PATCH 27/64] fix: String#reverse must not keep the classification of
 broken bytes

The bytes of a broken string can line up into a character when their order
changes, so the cached code range has to be found out again.
---
 monoruby/src/value/rvalue/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index e8242a4..9d5056f 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -1482,7 +1482,12 @@ impl RStringInner {
     pub fn reverse(&self) -> Self {
         let enc = self.ty;
         let bytes = self.as_bytes();
-        let cr = self.code_range();
+        // Broken bytes can line up into a character when their order
+        // changes (`"\x80\xC3"` reversed is valid UTF-8).
+        let cr = match self.code_range() {
+            CodeRange::Broken => CodeRange::Unknown,
+            cr => cr,
+        };
 
         // Fast path — pure byte reversal — when every char occupies
         // a single byte: SevenBit (ASCII-only under any encoding) or
-- 
2.43.0


From 9ce0d0dfd6209a816526f52beb30e944c342ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:36 +0000
Subject: [PATCH 28/64] fix: classify a substring without the non-ASCII
 characters of its parent as ASCII

A substring of a valid string was cached as valid but not ASCII only, even if
it left out all of the non-ASCII characters. ascii_only? and the compatibility
of encodings then gave wrong answers for it.
---
 monoruby/src/value/rvalue/string.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 9d5056f..8975914 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -1844,7 +1844,7 @@ impl RStringInner {
         RStringInner::from(
             SmallVec::from_slice(&parent.as_bytes()[start..end]),
             parent.encoding(),
-            Self::propagated_cr(parent, start, end),
+            Self::substring_cr(parent, start, end),
         )
     }
 
@@ -1926,6 +1926,21 @@ impl RStringInner {
         }
     }
 
+    /// Code range of the substring `start..end` of `parent`: what
+    /// `propagated_cr` says, except that a view which leaves out all
+    /// non-ASCII characters of a Valid parent is SevenBit.
+    fn substring_cr(parent: &RStringInner, start: usize, end: usize) -> CodeRange {
+        match Self::propagated_cr(parent, start, end) {
+            CodeRange::Valid
+                if parent.encoding().is_ascii_compatible()
+                    && parent.as_bytes()[start..end].is_ascii() =>
+            {
+                CodeRange::SevenBit
+            }
+            cr => cr,
+        }
+    }
+
     /// Whether byte index `i` is a UTF-8 character boundary. `0` and
     /// `content.len()` are always boundaries; otherwise the byte at
     /// `i` must not be a continuation byte (top two bits != `10`).
@@ -2445,7 +2460,7 @@ pub(crate) fn string_substring(mut parent: Value, start: usize, end: usize) -> V
     debug_assert!(start <= end && end <= inner.len());
     let len = end - start;
     let ty = inner.encoding();
-    let cr = RStringInner::propagated_cr(inner, start, end);
+    let cr = RStringInner::substring_cr(inner, start, end);
     // Share only when the copy would have to heap-allocate anyway
     // (an inline copy is at most STRING_INLINE_CAP bytes and cheaper
     // than a root allocation + GC edge).
-- 
2.43.0


From 23b34c346c61e39b65178ece1b37f0a9eb9d639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:36 +0000
Subject: [PATCH 29/64] fix: take the encoding into account when appending
 checked bytes

The appended bytes were taken for ASCII in UTF-16 and UTF-32 strings, and for
well-formed characters in US-ASCII strings.
---
 monoruby/src/value/rvalue/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 8975914..380c730 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2198,9 +2198,9 @@ impl RStringInner {
         // repeated callers (e.g. String#<< with single-char Integer args
         // or per-codepoint encode loops) don't degenerate to O(N²) when
         // self.code_range() is later queried.
-        let slice_cr = if slice.iter().all(|&b| b < 0x80) {
+        let slice_cr = if self.ty.is_ascii_compatible() && slice.iter().all(|&b| b < 0x80) {
             CodeRange::SevenBit
-        } else if self.ty.is_utf8_compatible() {
+        } else if self.ty == Encoding::Utf8 {
             CodeRange::Valid
         } else {
             CodeRange::Unknown
-- 
2.43.0


From 558f7571f86f0c5eeaeaa805245f5bba96a8a4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:36 +0000
Subject: [PATCH 30/64] fix: String#* must not keep the classification of
 broken bytes

Two copies of a broken string can be valid: an odd byte at the end of one copy
combines with the first byte of the next one.
---
 monoruby/src/value/rvalue/string.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 380c730..88aea50 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2260,14 +2260,15 @@ impl RStringInner {
     }
 
     pub fn repeat(&self, len: usize) -> RStringInner {
-        // Repetition of a classified buffer trivially preserves cr:
-        // SevenBit/Valid stay so under concatenation of identical
-        // valid runs, and Broken stays Broken. The empty case
+        // Repetition of a classified buffer preserves SevenBit and
+        // Valid. Broken copies can complete each other's characters
+        // (an odd byte of a wide encoding), so they are looked at
+        // again on demand. The empty case
         // (`len == 0`) collapses to SevenBit, matching `classify(b"")`.
-        let cr = if len == 0 {
-            CodeRange::SevenBit
-        } else {
-            self.cr.get()
+        let cr = match self.cr.get() {
+            _ if len == 0 => CodeRange::SevenBit,
+            CodeRange::Broken if len > 1 => CodeRange::Unknown,
+            cr => cr,
         };
         RStringInner::from(SmallVec::from_vec(self.as_bytes().repeat(len)), self.ty, cr)
     }
-- 
2.43.0


From d94e833b9472cbc9d8ce2a3315080bfea92111c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:36 +0000
Subject: [PATCH 31/64] fix: String#bytesplice which removes the last non-ASCII
 character

An ASCII replacement left the receiver cached as not ASCII only.
---
 monoruby/src/value/rvalue/string.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 88aea50..56e8aa5 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2385,6 +2385,10 @@ impl RStringInner {
             && is_utf8_char_boundary(self.as_bytes(), start)
             && is_utf8_char_boundary(self.as_bytes(), end);
 
+        // An ASCII replacement keeps a Valid receiver non-ASCII only
+        // if none of its non-ASCII characters is taken out.
+        let removed_ascii = self.as_bytes()[start..end].is_ascii();
+
         self.splice_bytes(start, end, repl_bytes);
         self.ty = result_enc;
 
@@ -2400,7 +2404,13 @@ impl RStringInner {
         // Fast path 2: receiver and replacement are both well-formed
         // UTF-8 (or pure ASCII) and the splice respects character
         // boundaries — the result is well-formed UTF-8 too.
-        if utf8_boundaries_ok && matches!(repl_cr, CodeRange::SevenBit | CodeRange::Valid) {
+        if utf8_boundaries_ok
+            && match repl_cr {
+                CodeRange::Valid => true,
+                CodeRange::SevenBit => removed_ascii,
+                _ => false,
+            }
+        {
             self.cr.set(CodeRange::Valid);
             return Ok(());
         }
-- 
2.43.0


From efe09a0d85d6660a89e11c038ae73fcfb7cd82f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:36 +0000
Subject: [PATCH 32/64] fix: a snapshot of a string has the encoding of the
 string

string_snapshot returned the sharing root even if the encoding of the receiver
had been changed after its buffer was shared.
---
 monoruby/src/value/rvalue/string.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 56e8aa5..7ea0976 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2513,16 +2513,19 @@ pub(crate) fn string_snapshot(mut receiver: Value) -> Value {
         let (root, base) = ensure_shared_root(&mut receiver);
         let view_len = receiver.as_rstring_inner().len();
         let root_inner = root.as_rstring_inner();
-        if base == root_inner.as_ptr() && view_len == root_inner.len() {
+        if base == root_inner.as_ptr()
+            && view_len == root_inner.len()
+            && root_inner.encoding() == receiver.as_rstring_inner().encoding()
+        {
             root
         } else {
             // The receiver is a sharer viewing a sub-range of the
             // root's buffer (e.g. a CoW substring handed out by a
-            // MatchData accessor). The snapshot must present exactly
-            // that window — returning the bare root would hand callers
-            // the whole original buffer.
-            let start = base as usize - root_inner.as_ptr() as usize;
-            let mut snap = string_substring(root, start, start + view_len);
+            // MatchData accessor), or its encoding was changed after
+            // the buffer was shared. The snapshot must present exactly
+            // that window in that encoding — returning the bare root
+            // would hand callers the whole original buffer.
+            let mut snap = string_substring(receiver, 0, view_len);
             snap.set_frozen();
             snap
         }
-- 
2.43.0


From 1e9efc47015fb4374b1c01a0b421a357acbd9001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:43 +0000
Subject: [PATCH 33/64] fix: remember the root of a shared buffer when a string
 is replaced

String#replace and Value::replace_with_inner can put a buffer shared with a
young root into an old string. Without the write barrier a minor collection
frees the root and its buffer while the string still refers to them.
---
 monoruby/src/builtins/string.rs | 2 +-
 monoruby/src/value.rs           | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index a4c9115..f4a2140 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -7336,7 +7336,7 @@ fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     // route through `coerce_to_rstring` and clone the inner.
     let other = lfp.arg(0).coerce_to_rstring(vm, globals)?;
     let new_inner = (*other).clone();
-    *lfp.self_val().as_rstring_inner_mut() = new_inner;
+    lfp.self_val().replace_with_inner(new_inner);
     Ok(lfp.self_val())
 }
 
diff --git a/monoruby/src/value.rs b/monoruby/src/value.rs
index 6b38de0..816f72e 100644
--- a/monoruby/src/value.rs
+++ b/monoruby/src/value.rs
@@ -2967,8 +2967,13 @@ impl Value {
     /// (with cached cr / encoding) without an extra String round-trip.
     pub(crate) fn replace_with_inner(&mut self, inner: RStringInner) {
         assert_eq!(ObjTy::STRING, self.rvalue().ty());
+        let root = inner.shared_root();
         // SAFETY: The assert ensures this RValue contains a string.
         unsafe { *self.rvalue_mut().as_rstring_mut() = inner };
+        // A shared buffer brings its root along.
+        if let Some(root) = root {
+            self.write_barrier(root);
+        }
     }
 
     pub(crate) fn replace_str(&mut self, replace: &str) {
-- 
2.43.0


From fdeceb10c178c4dacacf93978a1ab09511a815ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:33 +0000
Subject: [PATCH 34/64] fix: unpack1 gives the first value a template produces

String#unpack1 looked at the first directive only. Directives that only move
(x, X, @) produce nothing, so "@8L" and "xC" gave nil.
---
 monoruby/src/value/rvalue/string/pack.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 2310928..f4f51e4 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -120,10 +120,7 @@ pub(crate) fn unpack(
     once: bool,
     base_offset: usize,
 ) -> Result<Value> {
-    let mut template = parse_template(template, true)?;
-    if once {
-        template.truncate(1);
-    }
+    let template = parse_template(template, true)?;
 
     let mut b = ByteIter::new(packed);
     let mut ary = Vec::new();
@@ -162,7 +159,16 @@ pub(crate) fn unpack(
     }
 
     for template in template {
-        let repeat = template.repeat;
+        // Directives such as `x` and `@` produce nothing, so the value wanted
+        // may come from a later one.
+        if once && !ary.is_empty() {
+            break;
+        }
+        let mut repeat = template.repeat;
+        if once && matches!(template.template, Template::Utf8 | Template::BerCompressedInt) {
+            // Whatever follows the first number is not looked at.
+            repeat = Some(repeat.unwrap_or(1).min(1));
+        }
         let endian = matches!(template.endian, Endianness::Big);
         match template.template {
             Template::I64 => unpack!(8, i64, repeat, endian),
-- 
2.43.0


From f5447dfe535131faf7468a2483ce65a84a070896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:33 +0000
Subject: [PATCH 35/64] fix: unpack Z* stops behind the first NUL

Z* took the rest of the string with it, so the directives that follow it in
the template saw nothing.
---
 monoruby/src/value/rvalue/string/pack.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index f4f51e4..67e618f 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -341,11 +341,11 @@ pub(crate) fn unpack(
                     let end = bytes.iter().position(|&x| x == 0).unwrap_or(bytes.len());
                     ary.push(Value::bytes(bytes[..end].to_vec()));
                 } else {
-                    // Z* — read to end, strip after first null
+                    // Z* — read up to and including the first null
                     let bytes = b.remaining();
                     let end = bytes.iter().position(|&x| x == 0).unwrap_or(bytes.len());
                     let result = bytes[..end].to_vec();
-                    b.advance(bytes.len());
+                    b.advance(end + 1);
                     ary.push(Value::bytes(result));
                 }
             }
-- 
2.43.0


From ca45c42c4a56153e41c4ee1a56c533f248ba6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:33 +0000
Subject: [PATCH 36/64] fix: unpack w reads numbers of any size

The bits above the 64th were shifted out, and numbers from 2**63 came out
negative. pack already writes them.
---
 monoruby/src/value/rvalue/string/pack.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 67e618f..8eb2f09 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1968,11 +1968,24 @@ fn utf8_decode_one(b: &mut ByteIter) -> Result<u32> {
 
 fn ber_decode(b: &mut ByteIter) -> Result<Value> {
     let mut val: u64 = 0;
+    // The higher bits, once a `u64` cannot hold the number.
+    let mut big: Option<num::BigInt> = None;
     loop {
         if let Some(byte) = b.next() {
-            val = (val << 7) | (byte & 0x7F) as u64;
+            let low = (byte & 0x7F) as u64;
+            big = match big {
+                Some(big) => Some((big << 7u32) + low),
+                None if val >> 57 != 0 => Some((num::BigInt::from(val) << 7u32) + low),
+                None => {
+                    val = (val << 7) | low;
+                    None
+                }
+            };
             if byte & 0x80 == 0 {
-                return Ok(Value::integer(val as i64));
+                return Ok(match big {
+                    Some(big) => Value::bigint(big),
+                    None => Value::integer_from_u64(val),
+                });
             }
         } else {
             return Err(MonorubyErr::argumenterr("malformed BER compressed integer"));
-- 
2.43.0


From 944e1b9df8c6aa0974fa94f7a25142b9d9bfcac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:33 +0000
Subject: [PATCH 37/64] fix: unpack U refuses malformed and redundant sequences

The bytes behind the lead byte were taken without a look at them. Five and
six byte forms, which pack writes, were refused.
---
 monoruby/src/value/rvalue/string/pack.rs | 52 ++++++++++--------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 8eb2f09..0757dcb 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1932,38 +1932,28 @@ fn utf8_decode_one(b: &mut ByteIter) -> Result<u32> {
     let first = b
         .next()
         .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-    if first & 0x80 == 0 {
-        Ok(first as u32)
-    } else if first & 0xE0 == 0xC0 {
-        let b1 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        Ok(((first as u32 & 0x1F) << 6) | (b1 as u32 & 0x3F))
-    } else if first & 0xF0 == 0xE0 {
-        let b1 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        let b2 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        Ok(((first as u32 & 0x0F) << 12) | ((b1 as u32 & 0x3F) << 6) | (b2 as u32 & 0x3F))
-    } else if first & 0xF8 == 0xF0 {
-        let b1 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        let b2 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        let b3 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        Ok(((first as u32 & 0x07) << 18)
-            | ((b1 as u32 & 0x3F) << 12)
-            | ((b2 as u32 & 0x3F) << 6)
-            | (b3 as u32 & 0x3F))
-    } else {
-        Err(MonorubyErr::argumenterr("malformed UTF-8 character"))
+    // The number of continuation bytes, and the smallest code point that
+    // needs as many. Mirrors `utf8_encode_one`, up to the 6-byte form.
+    let (rest, min) = match first {
+        0x00..=0x7F => return Ok(first as u32),
+        0xC0..=0xDF => (1, 0x80),
+        0xE0..=0xEF => (2, 0x800),
+        0xF0..=0xF7 => (3, 0x1_0000),
+        0xF8..=0xFB => (4, 0x20_0000),
+        0xFC..=0xFD => (5, 0x400_0000),
+        _ => return Err(MonorubyErr::argumenterr("malformed UTF-8 character")),
+    };
+    let mut cp = first as u32 & (0x3F >> rest);
+    for _ in 0..rest {
+        match b.next() {
+            Some(c) if c & 0xC0 == 0x80 => cp = (cp << 6) | (c as u32 & 0x3F),
+            _ => return Err(MonorubyErr::argumenterr("malformed UTF-8 character")),
+        }
+    }
+    if cp < min {
+        return Err(MonorubyErr::argumenterr("redundant UTF-8 sequence"));
     }
+    Ok(cp)
 }
 
 fn ber_decode(b: &mut ByteIter) -> Result<Value> {
-- 
2.43.0


From 83c1f8c296662c9020bf2a0eafad7689d015ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:33 +0000
Subject: [PATCH 38/64] fix: unpack m ends at the padding and keeps a short
 final group

A final group without padding was dropped, and letters behind the padding
were decoded as if it were not there.
---
 monoruby/src/value/rvalue/string/pack.rs | 33 ++++++++++--------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 0757dcb..a70da6f 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1486,38 +1486,33 @@ fn base64_decode(data: &[u8]) -> Vec<u8> {
     let mut result = Vec::new();
     let mut buf = [0u8; 4];
     let mut buf_len = 0;
-    let mut pad_count = 0;
 
     for &byte in data {
-        if byte == b'=' {
-            buf[buf_len] = 0;
-            buf_len += 1;
-            pad_count += 1;
-        } else if let Some(val) = base64_decode_char(byte) {
+        if let Some(val) = base64_decode_char(byte) {
             buf[buf_len] = val;
             buf_len += 1;
-            pad_count = 0;
+        } else if byte == b'=' && buf_len >= 2 {
+            // padding ends the data
+            break;
         } else {
             // skip whitespace and other chars
             continue;
         }
 
         if buf_len == 4 {
-            let triple = (buf[0] as u32) << 18
-                | (buf[1] as u32) << 12
-                | (buf[2] as u32) << 6
-                | buf[3] as u32;
-            result.push((triple >> 16) as u8);
-            if pad_count < 2 {
-                result.push((triple >> 8) as u8);
-            }
-            if pad_count < 1 {
-                result.push(triple as u8);
-            }
+            result.push(buf[0] << 2 | buf[1] >> 4);
+            result.push(buf[1] << 4 | buf[2] >> 2);
+            result.push(buf[2] << 6 | buf[3]);
             buf_len = 0;
-            pad_count = 0;
         }
     }
+    // the final group may be short, with or without padding
+    if buf_len >= 2 {
+        result.push(buf[0] << 2 | buf[1] >> 4);
+    }
+    if buf_len == 3 {
+        result.push(buf[1] << 4 | buf[2] >> 2);
+    }
 
     result
 }
-- 
2.43.0


From 10e45ab197952356a4278973b77e61a8f8741e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:33 +0000
Subject: [PATCH 39/64] fix: unpack m0 is strict

A count of 0 asks for RFC 4648: anything that pack m0 would not have written
is an ArgumentError.
---
 monoruby/src/value/rvalue/string/pack.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index a70da6f..7a5019f 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -354,6 +354,10 @@ pub(crate) fn unpack(
                 let data = b.remaining().to_vec();
                 b.advance(data.len());
                 let decoded = base64_decode(&data);
+                // 'm0' — strict (RFC 4648): nothing but what 'm0' packs
+                if repeat == Some(0) && base64_encode(&decoded, 0).as_bytes() != data {
+                    return Err(MonorubyErr::argumenterr("invalid base64"));
+                }
                 ary.push(Value::bytes(decoded));
             }
             Template::QuotedPrintable => {
-- 
2.43.0


From 4ec9c37d163b5af298b043ecb5aefb7ea45cd7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:33 +0000
Subject: [PATCH 40/64] fix: lines of pack m and u have the length that was
 asked for

The count of m was rounded up to a multiple of three instead of down. The
count of u was cut at 45 bytes instead of 63.
---
 monoruby/src/value/rvalue/string/pack.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 7a5019f..251266b 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1434,11 +1434,9 @@ fn base64_encode(data: &[u8], line_len: usize) -> String {
     let mut result = String::new();
     let mut col = 0;
     // line_len is the number of input bytes per line (default 45 -> 60 output chars)
-    let chars_per_line = if line_len == 0 {
-        0
-    } else {
-        (line_len / 3) * 4 + if line_len % 3 != 0 { 4 } else { 0 }
-    };
+    // and is floored to a multiple of 3, as for uuencode (CRuby: `m5` ⇒ 3
+    // bytes per line)
+    let chars_per_line = (line_len / 3) * 4;
 
     for chunk in data.chunks(3) {
         let b0 = chunk[0] as u32;
@@ -1632,7 +1630,7 @@ fn uu_encode(data: &[u8], line_len: usize) -> String {
     let bytes_per_line = if line_len == 0 {
         45
     } else {
-        (line_len.min(45) / 3) * 3
+        (line_len.min(63) / 3) * 3
     };
 
     for chunk in data.chunks(bytes_per_line) {
-- 
2.43.0


From 05b4206bb1b52805476c9cb26e5dce2c9381134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:33 +0000
Subject: [PATCH 41/64] fix: unpack X* goes back by the number of bytes that
 remain

It went to the start of the string.
---
 monoruby/src/value/rvalue/string/pack.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 251266b..c4e5358 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -288,7 +288,13 @@ pub(crate) fn unpack(
                         }
                     }
                 } else {
-                    while b.back().is_some() {}
+                    // X* — back by as many bytes as remain (CRuby: `*` is the
+                    // number of remaining bytes)
+                    for _ in 0..b.remaining().len() {
+                        if b.back().is_none() {
+                            return Err(MonorubyErr::argumenterr("X outside of string"));
+                        }
+                    }
                 }
             }
             Template::AtPos => {
-- 
2.43.0


From 8e40891c9bea84c6c2b049ac260d06ed979304e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:16:02 +0000
Subject: [PATCH 42/64] fix: keep included modules behind a class with
 prepended modules

`prepend P` followed by `include M` put M in front of the class itself,
so that M's methods overrode the class's own.  Including a module that
includes others could also insert into the chain of a superclass, and a
module could not include a module that Object already has.

An included module now goes behind the origin.  The insertion point
moves only over modules mixed in to the class itself, and the chain of
Object does not count for modules.
---
 monoruby/src/value/rvalue/module.rs | 84 +++++++++++++++++------------
 1 file changed, 49 insertions(+), 35 deletions(-)

diff --git a/monoruby/src/value/rvalue/module.rs b/monoruby/src/value/rvalue/module.rs
index eb248c1..45fcfec 100644
--- a/monoruby/src/value/rvalue/module.rs
+++ b/monoruby/src/value/rvalue/module.rs
@@ -74,22 +74,24 @@ impl Module {
                 return Ok(());
             }
         }
-        let mut base = *self;
+        // A prepended module goes below the head of `self`, an included one
+        // below the origin: prepended modules stay in front of `self`.
+        let mut base = match self.origin() {
+            Some(origin) if !for_prepend => origin,
+            _ => *self,
+        };
         loop {
-            // For prepend: only treat the module as already-an-ancestor
-            // if it's in the prepend region (between head and origin).
-            // CRuby intentionally lets you prepend a module that's also
-            // included down the chain — both iclass entries appear in
-            // ancestors, and method dispatch sees the prepend first.
-            let already_present = if for_prepend {
-                module.is_ancestor_of_before_origin(*self)
-            } else {
-                module.is_ancestor_of(*self)
-            };
-            if !already_present {
-                base.include(module);
+            match self.find_mixed_in(module, base, for_prepend) {
+                // Already there: the rest of `module`'s chain goes behind it,
+                // provided that it is one of `self`'s own iclasses. Those of
+                // a superclass must be left alone.
+                Some(Some(iclass)) => base = iclass,
+                Some(None) => {}
+                None => {
+                    base.include(module);
+                    base = base.superclass().unwrap();
+                }
             }
-            base = base.superclass().unwrap();
             if let Some(superclass) = module.superclass()
                 && superclass.is_iclass()
             {
@@ -101,33 +103,45 @@ impl Module {
         Ok(())
     }
 
-    /// Like `is_ancestor_of`, but only checks the prepend region of
-    /// `class` (the chain segment between `class`'s head and its
-    /// origin iclass). Used by `prepend_module` to avoid duplicate
-    /// inserts in the prepend region while still allowing the same
-    /// module to surface again via an existing include further down
-    /// the chain.
+    /// Look for an iclass of `module` in the chain of `self`.
+    ///
+    /// For prepend, only the region before the origin of `self` counts:
+    /// CRuby intentionally lets you prepend a module that's also included
+    /// down the chain. For include, the whole chain counts, the iclasses of
+    /// the superclasses included. (The superclass of a module is `Object`,
+    /// for method lookup only.)
     ///
-    /// Returns true iff `self` (a module) is reachable from `class`
-    /// via super-walk, stopping at `class`'s origin iclass (exclusive).
-    fn is_ancestor_of_before_origin(self, class: Module) -> bool {
-        let origin = class.origin();
-        let mut cur = class;
+    /// Returns `None` if there is no such iclass, and `Some(Some(iclass))` if
+    /// it belongs to `self` and is not in front of `base`, a node of the
+    /// chain of `self`.
+    fn find_mixed_in(
+        self,
+        module: Module,
+        base: Module,
+        for_prepend: bool,
+    ) -> Option<Option<Module>> {
+        let origin = self.origin().map(|origin| origin.as_val());
+        let mut seen_base = base.as_val() == self.as_val();
+        let mut own = true;
+        let mut cur = self;
         while let Some(superclass) = cur.superclass() {
-            if let Some(o) = origin
-                && superclass.as_val() == o.as_val()
-            {
-                // Reached the origin iclass — stop. Anything past this
-                // point is either `class`'s own methods (origin) or
-                // included modules below origin.
-                return false;
+            if for_prepend && Some(superclass.as_val()) == origin {
+                return None;
             }
-            if superclass.id() == self.id() {
-                return true;
+            if superclass.as_val() == base.as_val() {
+                seen_base = true;
+            }
+            if !superclass.is_iclass() {
+                if for_prepend || self.is_module() {
+                    return None;
+                }
+                own = false;
+            } else if superclass.id() == module.id() {
+                return Some((own && seen_base).then_some(superclass));
             }
             cur = superclass;
         }
-        false
+        None
     }
 
     fn include(&mut self, module: Module) {
-- 
2.43.0


From fc80e35e2311fd19af7804c1a6cdd3ac7cc6eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:16:09 +0000
Subject: [PATCH 43/64] fix: propagate prepend to every class that has the
 module mixed in

Prepending to a module that was already included or prepended elsewhere
missed classes with prepended modules of their own and singleton
classes, left out the modules that the new one brought along, and could
insert into the chain of a superclass.

All the modules now in front of the module are put in front of each of
its occurrences among a class's own mixed in modules.
---
 monoruby/src/globals/store/class.rs | 95 ++++++++++++-----------------
 1 file changed, 39 insertions(+), 56 deletions(-)

diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index a156230..6eb3000 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -1427,84 +1427,67 @@ impl ClassInfoTable {
     /// points at the un-modified `IA`.
     ///
     /// Implementation: brute-force scan the class table. For each
-    /// class/module C ≠ `base_id`, walk C's superclass chain. If we
-    /// encounter an iclass whose `class_id == base_id` and
-    /// `prepend_module` is not already in the prepend region above it,
-    /// insert a new iclass for `prepend_module` immediately above that
-    /// iclass.
+    /// class/module C ≠ `base_id`, look among C's own iclasses for one
+    /// that wraps `base`. The iclasses right above it that stem from an
+    /// earlier `prepend` to `base` are replaced by fresh ones for all the
+    /// modules now in front of `base` (`prepend_module` may have brought
+    /// modules of its own), leaving out those C has further above.
     pub(crate) fn propagate_prepend_to_subclasses(
         &mut self,
         base_id: ClassId,
         prepend_module: Module,
     ) {
-        let prepend_id = prepend_module.id();
-        // Snapshot which class objects exist now — `prepend_module`
-        // might create new iclasses below as a side effect, but we only
-        // want to update *pre-existing* subclasses, not iclasses we add.
+        let base = self.get_module(base_id);
+        let Some(origin) = base.origin().filter(|_| base.is_module()) else {
+            return;
+        };
+        let mut prepended = vec![];
+        let mut cur = base.superclass().unwrap();
+        while cur.as_val() != origin.as_val() {
+            prepended.push(cur.id());
+            cur = cur.superclass().unwrap();
+        }
+        debug_assert!(prepended.contains(&prepend_module.id()));
+        // Iclasses never are the object of a class table entry.
         let candidates: Vec<Module> = self
             .table
             .iter()
             .filter_map(|info| info.object)
-            .filter(|m| {
-                // Skip iclasses (we walk via super through them) and
-                // singleton classes (they carry their own metaclass
-                // semantics; CRuby's propagation skips them too).
-                !m.is_iclass() && m.is_singleton().is_none() && m.id() != base_id
-            })
+            .filter(|m| m.id() != base_id)
             .collect();
 
         for module in candidates {
-            // Find the iclass node `IA` (wrapping base_id) in module's
-            // chain, walking head→super. We need a `&mut` reference to
-            // the predecessor of IA so we can re-link it through a new
-            // prepend iclass. Track predecessor in `prev`.
+            // `prev` is the node the modules in front of `base` hang from,
+            // `above` is what has been passed up to `prev`.
             let mut prev = module;
-            let mut cur = match module.superclass() {
-                Some(s) => s,
-                None => continue,
-            };
-            // Track whether we've seen `prepend_id` in the prepend
-            // region of `module` above `IA` — if so, skip insertion to
-            // avoid duplicate iclasses. (The prepend region of a class
-            // with origin sits between head and origin; for a class
-            // without origin, the whole chain.)
-            let module_origin = module.origin();
-            let mut already_present = false;
+            let mut above = vec![module.id()];
+            let mut run = vec![];
+            let mut cur = module.superclass();
             let target_iclass = loop {
-                if cur.is_iclass() && cur.id() == prepend_id {
-                    already_present = true;
-                }
-                if cur.is_iclass() && cur.id() == base_id {
-                    break Some(cur);
-                }
-                if let Some(o) = module_origin
-                    && cur.as_val() == o.as_val()
-                {
-                    // Reached `module`'s origin without finding IA;
-                    // base isn't in `module`'s prepend-side chain, so
-                    // there is nothing to propagate to here.
+                let Some(node) = cur.filter(|node| node.is_iclass()) else {
                     break None;
+                };
+                if node.id() == base_id {
+                    break Some(node);
                 }
-                match cur.superclass() {
-                    Some(next) => {
-                        prev = cur;
-                        cur = next;
-                    }
-                    None => break None,
+                run.push(node);
+                if !prepended.contains(&node.id()) || node.id() == module.id() {
+                    above.extend(run.drain(..).map(|node| node.id()));
+                    prev = node;
                 }
+                cur = node.superclass();
             };
             let Some(target) = target_iclass else {
                 continue;
             };
-            if already_present {
-                continue;
+            for id in &prepended {
+                if !above.contains(id) {
+                    let iclass = Value::iclass(*id, Some(target)).as_class();
+                    prev.set_superclass(Some(iclass));
+                    prev = iclass;
+                }
             }
-            // Insert a fresh iclass for `prepend_module` between `prev`
-            // and `target`. `prev.superclass = new_iclass`,
-            // `new_iclass.superclass = target`.
-            let new_iclass = Value::iclass(prepend_id, Some(target)).as_class();
-            let mut prev_mut = prev;
-            prev_mut.set_superclass(Some(new_iclass));
+            prev.set_superclass(Some(target));
         }
     }
 
-- 
2.43.0


From c0512a4848433433a1e8bec67d6eb2bedc04437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:16:16 +0000
Subject: [PATCH 44/64] fix: give copies of classes and singletons their own
 mixed in modules

A dup of a class shared the nodes of its included modules with the
original, so that mixing a module in to one changed the other.  Modules
prepended to a singleton class became included ones in a clone.
Methods copied by dup still named the original as their owner, so that
calls to protected methods were checked against the wrong class.
---
 monoruby/src/globals/store/class.rs | 117 ++++++++--------------------
 monoruby/src/value/rvalue/module.rs |  23 ++++++
 2 files changed, 57 insertions(+), 83 deletions(-)

diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 6eb3000..14cfd01 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -1777,35 +1777,14 @@ impl ClassInfoTable {
         let class_variables = orig.class_variables.clone();
         let alloc_func = orig.alloc_func;
 
-        // The original may have prepended modules. In that case its
-        // `superclass` chain looks like: head -> IM_p1 -> IM_p2 -> ...
-        // -> origin -> real_super. Cloning `superclass` directly would
-        // make the dup share the original's prepend iclasses (bad: the
-        // dup's content would still surface via the original's origin).
-        // Instead, take the dup's *real* super (the part below the
-        // origin) and re-prepend each module on the dup so it gets its
-        // own iclass set.
-        let (real_super, prepended_module_ids): (Option<Module>, Vec<ClassId>) = {
-            if let Some(origin) = orig_module.origin() {
-                // Collect prepended module ids in chain order: walk
-                // head.super through origin, gathering iclasses.
-                let mut ids = Vec::new();
-                let mut cur = orig_module.superclass();
-                while let Some(node) = cur {
-                    if node.id() == origin.id() && node.is_iclass() {
-                        // reached origin iclass — stop
-                        break;
-                    }
-                    if node.is_iclass() {
-                        ids.push(node.id());
-                    }
-                    cur = node.superclass();
-                }
-                (origin.superclass(), ids)
-            } else {
-                (orig_module.superclass(), Vec::new())
-            }
-        };
+        // The dup gets iclasses of its own for the modules mixed in to the
+        // original, so it starts with what comes behind those.
+        let mut real_super = orig_module.superclass();
+        while let Some(node) = real_super
+            && node.is_iclass()
+        {
+            real_super = node.superclass();
+        }
 
         let new_id = self.add_class();
         let class_obj = if is_module {
@@ -1818,7 +1797,7 @@ impl ClassInfoTable {
         info.name = None;
         info.parent = None;
         info.instance_ty = instance_ty;
-        info.methods = methods;
+        info.methods = Self::owned_methods(methods, original_class, new_id);
         info.constants = constants;
         info.constant_locations = constant_locations;
         info.class_variables = class_variables;
@@ -1828,22 +1807,13 @@ impl ClassInfoTable {
         // clones the singleton class so `def self.foo` and `extend`-ed modules
         // on the original are reachable through the dup.
         //
-        // NOTE: must happen *before* re-prepending modules below — the
+        // NOTE: must happen *before* copying the modules below — the
         // metaclass's super is built from the dup's superclass at the
-        // moment `get_metaclass` runs. If we prepended first, the
-        // dup's super would already be a prepend iclass, throwing the
-        // metaclass chain off (and breaking `is_a?(Class)`).
+        // moment `get_metaclass` runs.
         let orig_meta = self.get_metaclass(original_class);
         let new_meta = self.get_metaclass(new_id);
 
-        // Re-prepend the original's prepended modules, in reverse so
-        // the resulting chain order matches the original (the iclass
-        // closest to head was the last to be prepended).
-        let mut new_module = class_obj.as_class();
-        for mod_id in prepended_module_ids.into_iter().rev() {
-            let m = self.get_module(mod_id);
-            let _ = new_module.prepend_module(m);
-        }
+        class_obj.as_class().copy_mixed_in_modules(orig_module);
 
         // Copy singleton-class method/constant/cvar tables.
         let orig_meta_info = &self[orig_meta.id()];
@@ -1852,32 +1822,34 @@ impl ClassInfoTable {
         let m_constant_locations = orig_meta_info.constant_locations.clone();
         let m_class_variables = orig_meta_info.class_variables.clone();
         let new_meta_info = &mut self[new_meta.id()];
-        new_meta_info.methods = m_methods;
+        new_meta_info.methods = Self::owned_methods(m_methods, orig_meta.id(), new_meta.id());
         new_meta_info.constants = m_constants;
         new_meta_info.constant_locations = m_constant_locations;
         new_meta_info.class_variables = m_class_variables;
 
-        // Replicate `extend`-ed modules (iclasses hanging off the original
-        // metaclass's superclass chain) on the new metaclass in the same
-        // order. `include_module` prepends, so walk the original chain from
-        // nearest to furthest and re-include in reverse.
-        let mut included: Vec<ClassId> = vec![];
-        let mut cur = orig_meta.superclass();
-        while let Some(sc) = cur
-            && sc.is_iclass()
-        {
-            included.push(sc.id());
-            cur = sc.superclass();
-        }
+        // Replicate `extend`-ed modules.
         let mut new_meta = new_meta;
-        for mod_id in included.into_iter().rev() {
-            let module = self.get_module(mod_id);
-            let _ = new_meta.include_module(module);
-        }
+        new_meta.copy_mixed_in_modules(orig_meta);
 
         class_obj.as_class()
     }
 
+    /// The copy of a method table: entries stamp their defining class as
+    /// `owner` (surfaced by `Method#owner`, and what a protected call is
+    /// checked against). On the copied table that must be the copy.
+    fn owned_methods(
+        mut methods: HashMap<IdentId, MethodTableEntry>,
+        original: ClassId,
+        copy: ClassId,
+    ) -> HashMap<IdentId, MethodTableEntry> {
+        for entry in methods.values_mut() {
+            if entry.owner == original {
+                entry.owner = copy;
+            }
+        }
+        methods
+    }
+
     /// `Kernel#clone`'s singleton-class copy (CRuby's
     /// `rb_singleton_class_clone_and_attach`): when *original* has a
     /// singleton class, give *copy* its own fresh singleton class with the
@@ -1900,15 +1872,7 @@ impl ClassInfoTable {
         copy.change_class(real.id());
         let mut new_sc = self.get_singleton(copy)?;
         let org_info = &self[org_sc.id()];
-        let mut methods = org_info.methods.clone();
-        // Entries stamp their defining class as `owner` (surfaced by
-        // `Method#owner`); on the copied table that must be the *new*
-        // singleton, as it is in CRuby.
-        for entry in methods.values_mut() {
-            if entry.owner == org_sc.id() {
-                entry.owner = new_sc.id();
-            }
-        }
+        let methods = Self::owned_methods(org_info.methods.clone(), org_sc.id(), new_sc.id());
         let constants = org_info.constants.clone();
         let constant_locations = org_info.constant_locations.clone();
         let class_variables = org_info.class_variables.clone();
@@ -1917,21 +1881,8 @@ impl ClassInfoTable {
         new_info.constants = constants;
         new_info.constant_locations = constant_locations;
         new_info.class_variables = class_variables;
-        // Replicate `extend`-ed modules (iclasses on the original
-        // singleton's superclass chain) in the same order; `include_module`
-        // prepends, so walk nearest-to-furthest and re-include in reverse.
-        let mut included: Vec<ClassId> = vec![];
-        let mut cur = org_sc.superclass();
-        while let Some(sc) = cur
-            && sc.is_iclass()
-        {
-            included.push(sc.id());
-            cur = sc.superclass();
-        }
-        for mod_id in included.into_iter().rev() {
-            let module = self.get_module(mod_id);
-            let _ = new_sc.include_module(module);
-        }
+        // Replicate `extend`-ed modules.
+        new_sc.copy_mixed_in_modules(org_sc);
         Ok(())
     }
 
diff --git a/monoruby/src/value/rvalue/module.rs b/monoruby/src/value/rvalue/module.rs
index 45fcfec..95987ae 100644
--- a/monoruby/src/value/rvalue/module.rs
+++ b/monoruby/src/value/rvalue/module.rs
@@ -198,6 +198,29 @@ impl Module {
         self.include_or_prepend_module(module, true)
     }
 
+    ///
+    /// Give `self`, a fresh copy of `original` without modules of its own,
+    /// iclasses for all the modules included in or prepended to `original`.
+    ///
+    pub(crate) fn copy_mixed_in_modules(&mut self, original: Module) {
+        let origin = original.origin().map(|origin| origin.as_val());
+        let superclass = self.superclass();
+        let mut tail = *self;
+        let mut cur = original.superclass();
+        while let Some(node) = cur
+            && node.is_iclass()
+        {
+            let is_origin = Some(node.as_val()) == origin;
+            let iclass = if is_origin { *self } else { node }.make_iclass(superclass);
+            tail.set_superclass(Some(iclass));
+            if is_origin {
+                self.origin = Some(iclass);
+            }
+            tail = iclass;
+            cur = node.superclass();
+        }
+    }
+
     pub fn get_real_class(&self) -> Module {
         let mut class = *self;
         while class.is_singleton().is_some() || class.is_iclass() {
-- 
2.43.0


From 4fd531499653e823df03052fdb2a2740b79b722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:16:23 +0000
Subject: [PATCH 45/64] fix: stop super at an undefined method

When a body occurs several times in the ancestors, super of one
occurrence went past an undef right above it and answered with what a
later occurrence finds.
---
 monoruby/src/globals/store/class.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 14cfd01..9c3d277 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -2847,13 +2847,19 @@ impl Store {
         while let Some(m) = module {
             if !m.has_origin() && self.body_dispatched_by(m.id(), name, current_func_id) {
                 matched += 1;
-                if occurrence.is_none_or(|k| matched >= k)
-                    && let Some(super_module) = m.superclass()
-                    && let Some(entry) = self.search_method(super_module, name)
-                    && let Some(super_fid) = entry.func_id()
-                    && (occurrence.is_some() || super_fid != current_func_id)
-                {
-                    return Some(super_fid);
+                let super_fid = m
+                    .superclass()
+                    .and_then(|super_module| self.search_method(super_module, name))
+                    .and_then(|entry| entry.func_id());
+                match occurrence {
+                    // No super method for this very position (e.g. `undef`
+                    // right above it) is the answer, whatever a later
+                    // position of the same body would find.
+                    Some(k) if matched == k => return super_fid,
+                    None if super_fid.is_some_and(|fid| fid != current_func_id) => {
+                        return super_fid;
+                    }
+                    _ => {}
                 }
                 // Legacy mode found the same func_id: a duplicate position of
                 // the same body in the chain — keep walking to the next
-- 
2.43.0


From 0f220ab495abe68323d30d3494980aab462e4933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:16:31 +0000
Subject: [PATCH 46/64] fix: list methods behind prepended modules and honour
 undef in modules

Method lists took a class's own table before those of the modules
prepended to it, so the visibility reported was not the one a call
sees.  method_defined? on a module found methods of included modules
that the module itself undefines.
---
 monoruby/src/globals/store/class.rs | 38 ++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 9c3d277..3f61965 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -1282,19 +1282,24 @@ impl ClassInfoTable {
         let mut exclude = HashSet::default();
         let mut module = self.get_module(class_id);
         loop {
-            for (name, entry) in &self[module.id()].methods {
-                if exclude.contains(name) || names.contains(name) {
-                    continue;
-                }
-                if matches!(entry.visibility, Visibility::Undefined) {
-                    exclude.insert(*name);
-                } else if visibility_filter(entry) {
-                    names.insert(*name);
-                } else {
-                    exclude.insert(*name);
+            let stop = stop_after(module);
+            // The methods of a class with prepended modules come at its
+            // origin, behind those modules.
+            if !module.has_origin() || stop {
+                for (name, entry) in &self[module.id()].methods {
+                    if exclude.contains(name) || names.contains(name) {
+                        continue;
+                    }
+                    if matches!(entry.visibility, Visibility::Undefined) {
+                        exclude.insert(*name);
+                    } else if visibility_filter(entry) {
+                        names.insert(*name);
+                    } else {
+                        exclude.insert(*name);
+                    }
                 }
             }
-            if stop_after(module) {
+            if stop {
                 break;
             }
             match module.superclass() {
@@ -1542,7 +1547,11 @@ impl ClassInfoTable {
             if only_singleton && module.is_singleton().is_none() && !module.is_iclass() {
                 break;
             }
-            if !only_singleton || module.is_singleton().is_some() || module.is_iclass() {
+            // The methods of a class with prepended modules come at its
+            // origin, behind those modules.
+            if !module.has_origin()
+                && (!only_singleton || module.is_singleton().is_some() || module.is_iclass())
+            {
                 for (name, entry) in &self[module.id()].methods {
                     // Closer ancestor wins: skip names already resolved
                     // here. This is what makes `private :foo` on Kernel
@@ -2170,8 +2179,9 @@ impl Store {
             return Some(self.check_method_for_class(class_id, func_name)?.visibility);
         }
         for ancestor in self.ancestors(class_id) {
-            if let Some((_, visi, _)) = self.classes.get_method(ancestor.id(), func_name) {
-                return Some(visi);
+            // An undefined method hides those of the modules behind.
+            if let Some(entry) = self.own_method_entry(ancestor.id(), func_name) {
+                return entry.func_id().map(|_| entry.visibility());
             }
         }
         None
-- 
2.43.0


From f6e7656924bddf31e329b17ac1bc36f130a541a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:16:38 +0000
Subject: [PATCH 47/64] fix: start a visibility change at the class, not at
 prepended modules

private, public and protected looked the method up from the prepended
modules on.  With an undefined method in the class and a prepended
module defining it, the undef was turned into an entry without a
function.
---
 monoruby/src/globals/store/class.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 3f61965..7221a05 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -2302,14 +2302,25 @@ impl Store {
             // `func_id` is `None`, which `is_private` / `is_public` and
             // friends treat as "no method present" — so the spec's
             // `m.private_instance_methods.include?(:foo)` would be false.
-            let (func_id, inherited_vis, _) = self.find_method_for_class(class_id, *name)?;
+            //
+            // Methods of prepended modules are not concerned: the search
+            // starts at the origin.
+            let module = self.get_module(class_id);
+            let origin = module.origin().unwrap_or(module);
+            let Some((func_id, inherited_vis, original_name)) = self
+                .search_method(origin, *name)
+                .and_then(|e| Some((e.func_id()?, e.visibility(), e.original_name())))
+            else {
+                return Err(MonorubyErr::method_not_found_for_class(
+                    self, *name, class_id,
+                ));
+            };
             // A visibility shadow copies the *inherited* func_id, which goes
             // stale if the inherited method has since been redefined. Resolve
             // the current inherited definition from the superclass (the
             // shadow's own entry would just resolve to itself) so a repeated
             // visibility declaration re-syncs the copy.
-            let inherited_fid = self
-                .get_module(class_id)
+            let inherited_fid = origin
                 .superclass()
                 .and_then(|sup| self.search_method(sup, *name))
                 .and_then(|e| e.func_id());
@@ -2334,13 +2345,6 @@ impl Store {
                     if inherited_vis == visibility {
                         continue;
                     }
-                    // Preserve the inherited method's original definition
-                    // name so `Method#original_name` survives a
-                    // `private`/`public` visibility re-declaration.
-                    let original_name = self
-                        .search_method(self[class_id].get_module(), *name)
-                        .map(|e| e.original_name())
-                        .unwrap_or(*name);
                     // Insert a *visibility-modifier* entry that shares
                     // `func_id` with the inherited method but does NOT
                     // change the func's owner_class — otherwise asking
@@ -2355,6 +2359,10 @@ impl Store {
                             func_id: Some(func_id),
                             visibility,
                             is_basic_op: false,
+                            // Preserve the inherited method's original
+                            // definition name so `Method#original_name`
+                            // survives a `private`/`public` visibility
+                            // re-declaration.
                             original_name,
                             visibility_shadow: true,
                             is_alias: false,
-- 
2.43.0


From b41a5957a89e5ff71d01ee33a7cce1a868ced685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:44 +0000
Subject: [PATCH 48/64] fix: count characters in the width of sprintf fields
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The field width was compared with the length in bytes, so that
"%5s" % "é" was padded to four characters instead of five.
---
 monoruby/src/executor/format.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 318f72d..4f979f8 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -285,10 +285,12 @@ fn apply_int_precision(s: &str, precision: Option<usize>) -> String {
 
 /// Apply width padding to a string, with left or right alignment.
 fn apply_width(s: &str, width: usize, left_align: bool, pad: char) -> String {
-    if s.len() >= width {
+    // The width counts characters, not bytes.
+    let len = s.chars().count();
+    if len >= width {
         return s.to_string();
     }
-    let padding: String = std::iter::repeat(pad).take(width - s.len()).collect();
+    let padding: String = std::iter::repeat(pad).take(width - len).collect();
     if left_align {
         format!("{}{}", s, padding)
     } else {
-- 
2.43.0


From 6324fb67db2b2cc3f3d9a81250fae8372eb648ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:44 +0000
Subject: [PATCH 49/64] fix: ignore the 0 flag of sprintf where an integer has
 a precision

"%05.3d" % 7 is "  007": the zeros come from the precision alone.
---
 monoruby/src/executor/format.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 4f979f8..dac78e9 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1386,6 +1386,8 @@ impl Executor {
                     apply_width(&s, width, minus_flag, ' ')
                 }
                 'd' | 'i' | 'u' => {
+                    // A precision disables the `0` flag.
+                    let zero_flag = zero_flag && precision.is_none();
                     let ival = val.coerce_to_integer(self, globals)?;
                     let s = match ival {
                         IntegerBase::Fixnum(v) => format!("{}", v),
@@ -1397,6 +1399,8 @@ impl Executor {
                     )
                 }
                 'b' | 'B' => {
+                    // A precision disables the `0` flag.
+                    let zero_flag = zero_flag && precision.is_none();
                     let ival = val.coerce_to_integer(self, globals)?;
                     let (is_neg, abs_digits, pos_digits) = match ival {
                         IntegerBase::Fixnum(v) if v < 0 => {
@@ -1448,6 +1452,8 @@ impl Executor {
                     }
                 }
                 'o' => {
+                    // A precision disables the `0` flag.
+                    let zero_flag = zero_flag && precision.is_none();
                     let ival = val.coerce_to_integer(self, globals)?;
                     let (is_neg, abs_digits, pos_digits) = match ival {
                         IntegerBase::Fixnum(v) if v < 0 => {
@@ -1489,6 +1495,8 @@ impl Executor {
                     }
                 }
                 'x' | 'X' => {
+                    // A precision disables the `0` flag.
+                    let zero_flag = zero_flag && precision.is_none();
                     let ival = val.coerce_to_integer(self, globals)?;
                     let upper = ch == 'X';
                     let (is_neg, abs_digits, pos_digits) = match ival {
-- 
2.43.0


From 18f72a8312a0c1680b79c82b23960efcdd891d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:44 +0000
Subject: [PATCH 50/64] fix: leave out superfluous prefixes of sprintf's # flag

Zero with a precision got the prefix of %#x and %#b, and a negative
number in %+#o a leading zero on top of those of the precision.
---
 monoruby/src/executor/format.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index dac78e9..ab12768 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1436,10 +1436,9 @@ impl Executor {
                         }
                     } else {
                         let digits = apply_int_precision(&pos_digits.unwrap(), precision);
-                        // `apply_int_precision("0", Some(0))` is "" — so an
-                        // empty result is also "zero", and the `#` prefix is
-                        // suppressed (`"%#.0b" % 0 == ""`).
-                        let is_zero = digits.is_empty() || digits == "0";
+                        // Zero has no `#` prefix, whatever its precision
+                        // (`"%#.0b" % 0 == ""`, `"%#.3b" % 0 == "000"`).
+                        let is_zero = digits.bytes().all(|b| b == b'0');
                         let prefix = if hash_flag && !is_zero {
                             if ch == 'B' { "0B" } else { "0b" }
                         } else {
@@ -1470,7 +1469,11 @@ impl Executor {
                     if is_neg {
                         if plus_flag || space_flag {
                             let digits = apply_int_precision(&abs_digits, precision);
-                            let prefix = if hash_flag { "0" } else { "" };
+                            let prefix = if hash_flag && !digits.starts_with('0') {
+                                "0"
+                            } else {
+                                ""
+                            };
                             format_int_with_prefix(
                                 true, &digits, prefix, width, zero_flag, minus_flag,
                                 plus_flag, space_flag,
@@ -1548,10 +1551,8 @@ impl Executor {
                         }
                     } else {
                         let digits = apply_int_precision(&pos_digits.unwrap(), precision);
-                        // See the `%b` branch: precision 0 with value 0 gives
-                        // "", which is still "zero" and suppresses the prefix
-                        // (`"%#.0x" % 0 == ""`).
-                        let is_zero = digits.is_empty() || digits == "0";
+                        // See the `%b` branch: zero has no prefix.
+                        let is_zero = digits.bytes().all(|b| b == b'0');
                         let prefix = if hash_flag && !is_zero {
                             if upper { "0X" } else { "0x" }
                         } else {
-- 
2.43.0


From dd956698d18035c634d3078858bcbebf0f7491b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:44 +0000
Subject: [PATCH 51/64] fix: choose the notation of %g after rounding

"%.3g" % 999.9 is "1e+03": the exponent that decides between the fixed
and the scientific notation is that of the rounded number. "%#g" % 0.0
keeps its zeros like any other number.
---
 monoruby/src/executor/format.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index ab12768..2577c6f 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -519,9 +519,6 @@ fn force_decimal_point(s: &str) -> String {
 }
 
 fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
-    if f == 0.0 {
-        return "0".to_string();
-    }
     if f.is_infinite() {
         return if f > 0.0 {
             "Inf".to_string()
@@ -532,15 +529,16 @@ fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
     if f.is_nan() {
         return "NaN".to_string();
     }
-    let exp = f.log10().floor() as i32;
+    // Scientific notation with (precision - 1) digits after decimal. Its
+    // exponent, taken after rounding, decides between the two notations.
+    let sci_prec = if precision > 1 { precision - 1 } else { 0 };
+    let s = if uppercase {
+        format!("{:.p$E}", f, p = sci_prec)
+    } else {
+        format!("{:.p$e}", f, p = sci_prec)
+    };
+    let exp: i32 = s[s.find(['e', 'E']).unwrap() + 1..].parse().unwrap();
     if exp < -4 || exp >= precision as i32 {
-        // Use scientific notation with (precision - 1) digits after decimal
-        let sci_prec = if precision > 1 { precision - 1 } else { 0 };
-        let s = if uppercase {
-            format!("{:.p$E}", f, p = sci_prec)
-        } else {
-            format!("{:.p$e}", f, p = sci_prec)
-        };
         // Strip trailing zeros in the mantissa part (before 'e'/'E')
         if strip {
             strip_trailing_zeros_scientific(&s)
-- 
2.43.0


From 3db090da964a678b50067dc019de2a93bef65f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:44 +0000
Subject: [PATCH 52/64] fix: carry into the leading digit of %a, pad Inf and
 NaN with spaces

"%.1a" % 1.99 lost the carry out of the rounded digits and gave
0x1.0p+0, half the number. The 0 flag does not apply to Inf and NaN.
---
 monoruby/src/executor/format.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 2577c6f..b39c9cc 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -433,7 +433,8 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
                     prefix, leading, padded, p_char, exp_sign, exp_abs
                 )
             } else {
-                let rounded = round_hex_mantissa(&full_hex, prec, uppercase);
+                let (rounded, carry) = round_hex_mantissa(&full_hex, prec, uppercase);
+                let leading = if carry { '2' } else { leading };
                 format!(
                     "{}{}.{}{}{}{}",
                     prefix, leading, rounded, p_char, exp_sign, exp_abs
@@ -454,19 +455,20 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
     }
 }
 
-/// Round a hex mantissa string to the given number of hex digits.
-fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> String {
+/// Round a hex mantissa string to the given number of hex digits. Also
+/// returns whether a carry goes into the leading digit.
+fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> (String, bool) {
     let hex_bytes: Vec<u8> = hex.bytes().collect();
     if prec >= hex_bytes.len() {
-        return hex.to_string();
+        return (hex.to_string(), false);
     }
     let round_digit = hex_digit_val(hex_bytes[prec]);
     let mut digits: Vec<u8> = hex_bytes[..prec]
         .iter()
         .map(|&b| hex_digit_val(b))
         .collect();
-    if round_digit >= 8 {
-        let mut carry = true;
+    let mut carry = round_digit >= 8;
+    if carry {
         for d in digits.iter_mut().rev() {
             if carry {
                 *d += 1;
@@ -478,7 +480,7 @@ fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> String {
             }
         }
     }
-    digits
+    let digits = digits
         .iter()
         .map(|&d| {
             if d < 10 {
@@ -489,7 +491,8 @@ fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> String {
                 (b'a' + d - 10) as char
             }
         })
-        .collect()
+        .collect();
+    (digits, carry)
 }
 
 fn hex_digit_val(b: u8) -> u8 {
@@ -1645,7 +1648,7 @@ impl Executor {
                     } else {
                         ("", s.as_str())
                     };
-                    if zero_flag && !minus_flag && width > sign.len() + s.len() {
+                    if zero_flag && f.is_finite() && width > sign.len() + s.len() {
                         let pad = width - sign.len() - pfx.len();
                         format!("{}{}{:0>w$}", sign, pfx, rest, w = pad)
                     } else {
-- 
2.43.0


From faab08a8aa4d6e737db1fcb23574ad1f0415511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:44 +0000
Subject: [PATCH 53/64] fix: keep all digits of an Integer in %f

An Integer was converted to a Float first, so that
"%.0f" % 9007199254740993 came out as 9007199254740992.
---
 monoruby/src/executor/format.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index b39c9cc..d52872b 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1565,6 +1565,23 @@ impl Executor {
                         )
                     }
                 }
+                // An Integer keeps all of its digits.
+                'f' if val.is_integer() => {
+                    let mut s = match val.coerce_to_integer(self, globals)? {
+                        IntegerBase::Fixnum(v) => format!("{}", v),
+                        IntegerBase::BigInt(v) => format!("{}", v),
+                    };
+                    // CRuby quirk: `%#f` does NOT force a point for an
+                    // Integer argument (unlike `%#e`/`%#g`/`%#a`).
+                    let prec = precision.unwrap_or(6);
+                    if prec > 0 {
+                        s.push('.');
+                        s.extend(std::iter::repeat('0').take(prec));
+                    }
+                    format_integer_with_flags(
+                        &s, width, zero_flag, minus_flag, plus_flag, space_flag,
+                    )
+                }
                 'f' => {
                     let f = val.coerce_to_float(self, globals)?;
                     let prec = precision.unwrap_or(6);
@@ -1575,9 +1592,7 @@ impl Executor {
                     } else {
                         format!("{:.p$}", f.abs(), p = prec)
                     };
-                    // CRuby quirk: `%#f` does NOT force a point for an
-                    // Integer argument (unlike `%#e`/`%#g`/`%#a`).
-                    let s = if hash_flag && f.is_finite() && !val.is_integer() {
+                    let s = if hash_flag && f.is_finite() {
                         force_decimal_point(&s)
                     } else {
                         s
-- 
2.43.0


From 639224b17fa860367b4d2d930895d26c5708bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:44 +0000
Subject: [PATCH 54/64] fix: reject a second name in one sprintf directive

"%<a><b>d" silently used the second name; CRuby raises ArgumentError.
---
 monoruby/src/executor/format.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index d52872b..5009f66 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -723,7 +723,7 @@ fn format_int_with_prefix(
 /// If `fchars[*i]` is `<`, parse `<name>` and look the value up in
 /// the named-arg hash (cached in `cache`); advances `*i` to one past
 /// the closing `>`. Otherwise leaves `*i` untouched and returns
-/// `Ok(None)`.
+/// `Ok(None)`. `named` tells whether the directive already has a name.
 fn try_consume_angle_named(
     vm: &mut Executor,
     globals: &mut Globals,
@@ -732,6 +732,7 @@ fn try_consume_angle_named(
     fchars: &[char],
     i: &mut usize,
     flen: usize,
+    named: bool,
 ) -> Result<Option<Value>> {
     if *i >= flen || fchars[*i] != '<' {
         return Ok(None);
@@ -747,6 +748,11 @@ fn try_consume_angle_named(
             "malformed name - unmatched parenthesis",
         ));
     }
+    if named {
+        return Err(MonorubyErr::argumenterr(format!(
+            "named<{key}> after another name"
+        )));
+    }
     let hash = get_named_hash_helper(arguments, cache)
         .ok_or_else(|| MonorubyErr::argumenterr("one hash required"))?;
     let key_val = Value::symbol_from_str(&key);
@@ -900,6 +906,7 @@ impl Executor {
                 &fchars,
                 &mut i,
                 flen,
+                false,
             )?;
 
             // Detect (and consume) a `N$` positional argument reference at
@@ -988,6 +995,7 @@ impl Executor {
                         &fchars,
                         &mut i,
                         flen,
+                        named_val.is_some(),
                     )? {
                         named_val = Some(v);
                         if i >= flen {
@@ -1093,6 +1101,7 @@ impl Executor {
                     &fchars,
                     &mut i,
                     flen,
+                    named_val.is_some(),
                 )? {
                     named_val = Some(v);
                     if i >= flen {
@@ -1196,6 +1205,7 @@ impl Executor {
                     &fchars,
                     &mut i,
                     flen,
+                    named_val.is_some(),
                 )? {
                     named_val = Some(v);
                     if i >= flen {
-- 
2.43.0


From 4794ea787faf83e05cfd7af7252c04ade92b31a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:56:47 +0000
Subject: [PATCH 55/64] fix: raise for sprintf widths and argument numbers out
 of range

A width or precision beyond the range of int was used as it is, so that
"%99999999999999d" % 1 aborted the process for lack of memory, and a huge
argument number wrapped around to a valid one. CRuby raises ArgumentError.
---
 monoruby/src/executor/format.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 5009f66..893dff5 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -931,7 +931,9 @@ impl Executor {
                 if j < flen && fchars[j] == '$' {
                     let mut num = 0usize;
                     for &c in &fchars[start..j] {
-                        num = num * 10 + (c as usize) - ('0' as usize);
+                        num = num
+                            .saturating_mul(10)
+                            .saturating_add(c as usize - '0' as usize);
                     }
                     *pos = j + 1;
                     Some(num)
@@ -1058,6 +1060,9 @@ impl Executor {
                 let w = width_val.coerce_to_integer(self, globals)?;
                 match w {
                     IntegerBase::Fixnum(v) => {
+                        if v.unsigned_abs() > i32::MAX as u64 {
+                            return Err(MonorubyErr::argumenterr("width too big"));
+                        }
                         if v < 0 {
                             minus_flag = true;
                             zero_flag = false;
@@ -1081,6 +1086,7 @@ impl Executor {
                     width = width
                         .checked_mul(10)
                         .and_then(|w| w.checked_add(ch as usize - '0' as usize))
+                        .filter(|w| *w <= i32::MAX as usize)
                         .ok_or_else(|| MonorubyErr::argumenterr("width too big"))?;
                     i += 1;
                     if i >= flen {
@@ -1145,6 +1151,9 @@ impl Executor {
                     };
                     match prec_val.coerce_to_integer(self, globals)? {
                         IntegerBase::Fixnum(v) => {
+                            if v.unsigned_abs() > i32::MAX as u64 {
+                                return Err(MonorubyErr::argumenterr("precision too big"));
+                            }
                             if v >= 0 {
                                 precision = Some(v as usize);
                             }
@@ -1166,6 +1175,7 @@ impl Executor {
                         prec = prec
                             .checked_mul(10)
                             .and_then(|p| p.checked_add(ch as usize - '0' as usize))
+                            .filter(|p| *p <= i32::MAX as usize)
                             .ok_or_else(|| MonorubyErr::argumenterr("precision too big"))?;
                         i += 1;
                         if i >= flen {
-- 
2.43.0


From f4eae79fcc7ad59035daf97f0df46e2f2be123c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:56:47 +0000
Subject: [PATCH 56/64] fix: do not panic on sprintf widths and precisions
 above 65535

format! takes widths and precisions of 16 bits only and panics on more.
---
 monoruby/src/executor/format.rs | 56 +++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 893dff5..93184c0 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -323,8 +323,7 @@ fn format_integer_with_flags(
     };
     let body = format!("{}{}", sign, digits);
     if zero_flag && width > body.len() {
-        let pad = width - sign.len();
-        format!("{}{:0>w$}", sign, digits, w = pad)
+        format!("{}{}{}", sign, "0".repeat(width - body.len()), digits)
     } else {
         apply_width(&body, width, minus_flag, ' ')
     }
@@ -354,8 +353,7 @@ fn format_float_with_flags(
     // Non-finite values (`Inf`/`NaN`) are never zero-padded, even with
     // the `0` flag — CRuby pads them with spaces.
     if zero_flag && f.is_finite() && width > body.len() {
-        let pad = width - sign.len();
-        format!("{}{:0>w$}", sign, s, w = pad)
+        format!("{}{}{}", sign, "0".repeat(width - body.len()), s)
     } else {
         apply_width(&body, width, minus_flag, ' ')
     }
@@ -377,7 +375,7 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
     if f == 0.0 {
         return match precision {
             Some(0) => format!("{}0{}+0", prefix, p_char),
-            Some(prec) => format!("{}0.{:0>w$}{}+0", prefix, "", p_char, w = prec),
+            Some(prec) => format!("{}0.{}{}+0", prefix, "0".repeat(prec), p_char),
             None => format!("{}0{}+0", prefix, p_char),
         };
     }
@@ -427,7 +425,7 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
         }
         Some(prec) => {
             if prec >= 13 {
-                let padded = format!("{:0<w$}", full_hex, w = prec);
+                let padded = format!("{}{}", full_hex, "0".repeat(prec - 13));
                 format!(
                     "{}{}.{}{}{}{}",
                     prefix, leading, padded, p_char, exp_sign, exp_abs
@@ -521,6 +519,30 @@ fn force_decimal_point(s: &str) -> String {
     }
 }
 
+/// `f`, not negative, with `prec` digits after the decimal point. A Float
+/// has at most 1074 such digits; `format!` does not take any precision.
+fn format_fixed(f: f64, prec: usize) -> String {
+    let p = prec.min(1074);
+    let s = format!("{:.p$}", f);
+    s + &"0".repeat(prec - p)
+}
+
+/// `f`, not negative, in scientific notation with `prec` digits after the
+/// decimal point.
+fn format_sci(f: f64, prec: usize, uppercase: bool) -> String {
+    let p = prec.min(1074);
+    let s = if uppercase {
+        format!("{:.p$E}", f)
+    } else {
+        format!("{:.p$e}", f)
+    };
+    if prec == p {
+        return s;
+    }
+    let (mantissa, exponent) = s.split_at(s.find(['e', 'E']).unwrap());
+    format!("{}{}{}", mantissa, "0".repeat(prec - p), exponent)
+}
+
 fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
     if f.is_infinite() {
         return if f > 0.0 {
@@ -535,11 +557,7 @@ fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
     // Scientific notation with (precision - 1) digits after decimal. Its
     // exponent, taken after rounding, decides between the two notations.
     let sci_prec = if precision > 1 { precision - 1 } else { 0 };
-    let s = if uppercase {
-        format!("{:.p$E}", f, p = sci_prec)
-    } else {
-        format!("{:.p$e}", f, p = sci_prec)
-    };
+    let s = format_sci(f, sci_prec, uppercase);
     let exp: i32 = s[s.find(['e', 'E']).unwrap() + 1..].parse().unwrap();
     if exp < -4 || exp >= precision as i32 {
         // Strip trailing zeros in the mantissa part (before 'e'/'E')
@@ -556,7 +574,7 @@ fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
         } else {
             0
         };
-        let s = format!("{:.p$}", f, p = fixed_prec);
+        let s = format_fixed(f, fixed_prec);
         if strip {
             strip_trailing_zeros_fixed(&s)
         } else {
@@ -713,8 +731,8 @@ fn format_int_with_prefix(
     };
     let body = format!("{}{}{}", sign, prefix, digits);
     if zero_flag && width > body.len() {
-        let pad = width - sign.len() - prefix.len();
-        format!("{}{}{:0>w$}", sign, prefix, digits, w = pad)
+        let zeros = "0".repeat(width - body.len());
+        format!("{}{}{}{}", sign, prefix, zeros, digits)
     } else {
         apply_width(&body, width, minus_flag, ' ')
     }
@@ -1610,7 +1628,7 @@ impl Executor {
                     } else if f.is_nan() {
                         "NaN".to_string()
                     } else {
-                        format!("{:.p$}", f.abs(), p = prec)
+                        format_fixed(f.abs(), prec)
                     };
                     let s = if hash_flag && f.is_finite() {
                         force_decimal_point(&s)
@@ -1628,10 +1646,8 @@ impl Executor {
                         "Inf".to_string()
                     } else if f.is_nan() {
                         "NaN".to_string()
-                    } else if ch == 'E' {
-                        normalize_sci_exponent(&format!("{:.p$E}", f.abs(), p = prec))
                     } else {
-                        normalize_sci_exponent(&format!("{:.p$e}", f.abs(), p = prec))
+                        normalize_sci_exponent(&format_sci(f.abs(), prec, ch == 'E'))
                     };
                     let s = if hash_flag && f.is_finite() {
                         force_decimal_point(&s)
@@ -1684,8 +1700,8 @@ impl Executor {
                         ("", s.as_str())
                     };
                     if zero_flag && f.is_finite() && width > sign.len() + s.len() {
-                        let pad = width - sign.len() - pfx.len();
-                        format!("{}{}{:0>w$}", sign, pfx, rest, w = pad)
+                        let zeros = "0".repeat(width - sign.len() - s.len());
+                        format!("{}{}{}{}", sign, pfx, zeros, rest)
                     } else {
                         apply_width(
                             &format!("{}{}", sign, s),
-- 
2.43.0


From 9bc8581ab10b0bd4d8b904c54b769a12236a2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:30:36 +0000
Subject: [PATCH 57/64] fix: let private constants hide inherited ones in
 Module#constants

---
 monoruby/src/globals/store/class/constants.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/globals/store/class/constants.rs b/monoruby/src/globals/store/class/constants.rs
index f10939d..5860e41 100644
--- a/monoruby/src/globals/store/class/constants.rs
+++ b/monoruby/src/globals/store/class/constants.rs
@@ -325,10 +325,8 @@ impl ClassInfoTable {
         let mut seen = HashSet::default();
         loop {
             for (name, state) in self[class.id()].constants.iter() {
-                if state.is_private() {
-                    continue;
-                }
-                if seen.insert(*name) {
+                // A private constant still hides farther ones of its name.
+                if seen.insert(*name) && !state.is_private() {
                     names.push(*name);
                 }
             }
-- 
2.43.0


From c805741dbc9ca43f47595cc4ea10af2adba21219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:32:00 +0000
Subject: [PATCH 58/64] fix: search prepended modules before the inherited
 class in constant lookups

---
 monoruby/src/executor/constants.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/executor/constants.rs b/monoruby/src/executor/constants.rs
index 8dfdf96..70f767e 100644
--- a/monoruby/src/executor/constants.rs
+++ b/monoruby/src/executor/constants.rs
@@ -1,5 +1,16 @@
 use super::*;
 
+/// The class to be searched after *module* in a constant lookup. A class with
+/// prepended modules stands in the chain a second time behind them, and that
+/// is where an inherited one is searched.
+fn next_constant_scope(module: Module) -> Option<Module> {
+    let mut next = module.superclass()?;
+    while next.has_origin() {
+        next = next.superclass()?;
+    }
+    Some(next)
+}
+
 impl Executor {
     pub(crate) fn get_qualified_constant(
         &mut self,
@@ -176,7 +187,7 @@ impl Executor {
         loop {
             match self.get_constant(globals, module.id(), name)? {
                 Some(v) => return Ok(Some(v)),
-                None => match module.superclass() {
+                None => match next_constant_scope(module) {
                     Some(superclass) => module = superclass,
                     None => break,
                 },
@@ -215,7 +226,7 @@ impl Executor {
                         return Ok((v, module.id()));
                     }
                 }
-                None => match module.superclass() {
+                None => match next_constant_scope(module) {
                     Some(superclass) => module = superclass,
                     None => break,
                 },
@@ -250,7 +261,7 @@ impl Executor {
                     return Ok(Some(v));
                 }
             }
-            match module.superclass() {
+            match next_constant_scope(module) {
                 Some(superclass) => module = superclass,
                 None => return Ok(None),
             }
@@ -471,7 +482,7 @@ impl Executor {
             if Self::probe_constant_at(globals, module.id(), name) {
                 return true;
             }
-            match module.superclass() {
+            match next_constant_scope(module) {
                 Some(superclass) => module = superclass,
                 None => return false,
             }
@@ -503,7 +514,7 @@ impl Executor {
                 // considered defined (`defined?(A::PrivConst)` ⇒ nil).
                 return !globals.store[cid].is_constant_private(name);
             }
-            match module.superclass() {
+            match next_constant_scope(module) {
                 Some(superclass) => module = superclass,
                 None => return false,
             }
@@ -525,7 +536,7 @@ impl Executor {
             if Self::probe_constant_at(globals, module.id(), name) {
                 return Some(module.id());
             }
-            match module.superclass() {
+            match next_constant_scope(module) {
                 Some(superclass) => module = superclass,
                 None => return None,
             }
-- 
2.43.0


From 17a8544831f4cf05fd153e84550c4ddd3e12d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:38:47 +0000
Subject: [PATCH 59/64] fix: do not hang on the name of a module that is its
 own constant

---
 monoruby/src/globals/store/class/constants.rs | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/globals/store/class/constants.rs b/monoruby/src/globals/store/class/constants.rs
index 5860e41..e01bbb7 100644
--- a/monoruby/src/globals/store/class/constants.rs
+++ b/monoruby/src/globals/store/class/constants.rs
@@ -391,7 +391,13 @@ impl ClassInfoTable {
             let target = klass.id();
             let target_was_anon = self[target].get_name().is_none();
             let target_was_non_permanent = !self[target].is_name_permanent();
-            if target_was_anon {
+            if target_was_anon && self.is_named_after(class_id, target) {
+                // The owner's name runs through the target itself
+                // (`m.const_set(:A, m)`): there is no chain to walk, so
+                // keep the name as it reads now.
+                let path = format!("{}::{name}", self.qualified_name(class_id));
+                self[target].set_temporary_name(path);
+            } else if target_was_anon {
                 // First-time naming: install the leaf name and parent.
                 self[target].set_parent(class_id);
                 // Store the leaf name only; `get_parents` walks the
@@ -421,6 +427,18 @@ impl ClassInfoTable {
         }
     }
 
+    /// Whether *target* is *class_id* or one of its lexical parents.
+    fn is_named_after(&self, class_id: ClassId, target: ClassId) -> bool {
+        let mut cur = class_id;
+        while cur != target {
+            match self[cur].parent_id() {
+                Some(parent) if cur != OBJECT_CLASS => cur = parent,
+                _ => return false,
+            }
+        }
+        true
+    }
+
     /// Walk the (parent, child) graph rooted at `root` and promote any
     /// descendant whose own name was non-permanent up to permanent,
     /// clearing the `name_explicit_temporary` flag in the process. The
-- 
2.43.0


From 1914e498b34ec1604ad9b0a4e9400bb36a576947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:43:07 +0000
Subject: [PATCH 60/64] fix: give a permanent name to every module that becomes
 reachable over constants

Only modules whose name was derived from the module being named were
promoted.  A module that is one of its constants but got a makeshift
name elsewhere kept it, and a former constant that had been removed
was promoted all the same.
---
 monoruby/src/globals/store/class.rs           |  9 --
 monoruby/src/globals/store/class/constants.rs | 89 ++++++-------------
 2 files changed, 25 insertions(+), 73 deletions(-)

diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 7221a05..111e9d1 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -641,15 +641,6 @@ impl ClassInfo {
         self.name_permanent = permanent;
     }
 
-    /// Drop the "set via `Module#set_temporary_name`" marker. Used
-    /// when an enclosing anonymous ancestor gets a permanent name and
-    /// thereby promotes this descendant: the previously-explicit
-    /// temporary leaf must yield to the qualified parent-chain
-    /// rendering.
-    pub(crate) fn clear_explicit_temporary(&mut self) {
-        self.name_explicit_temporary = false;
-    }
-
     /// Force `Module#name` to recompute its frozen-string return next
     /// time it's called, instead of returning the cached value. Needed
     /// when something external to `set_name` mutates the rendered
diff --git a/monoruby/src/globals/store/class/constants.rs b/monoruby/src/globals/store/class/constants.rs
index e01bbb7..bcc2f37 100644
--- a/monoruby/src/globals/store/class/constants.rs
+++ b/monoruby/src/globals/store/class/constants.rs
@@ -439,59 +439,37 @@ impl ClassInfoTable {
         true
     }
 
-    /// Walk the (parent, child) graph rooted at `root` and promote any
-    /// descendant whose own name was non-permanent up to permanent,
-    /// clearing the `name_explicit_temporary` flag in the process. The
-    /// descendants' leaf names are kept as-is — only the rendered
-    /// fully-qualified path changes (recomputed lazily via
-    /// `get_parents`).
+    /// Promote every class or module that is reachable from `root` over
+    /// constants and whose own name was non-permanent up to permanent,
+    /// clearing the `name_explicit_temporary` flag in the process. A
+    /// name given by the same parent before keeps its leaf.
     fn propagate_permanent_name(&mut self, root: ClassId) {
-        // Collect descendants iteratively. Walking the full class
-        // table is acceptable because re-binding is rare; this avoids
-        // maintaining a child-list per `ClassInfo`.
         let mut stack = vec![root];
-        let mut to_promote: Vec<(ClassId, ClassId)> = Vec::new();
         while let Some(parent) = stack.pop() {
-            // The class table is `ClassId`-indexed, so `table[idx]`
-            // corresponds to `ClassId(idx)`; index 0 is unused
-            // (`ClassId` is `NonZeroU32`).
-            for idx in 1..self.classinfo_len() {
-                let id = ClassId::new(idx as u32);
-                if id == root {
+            let bound: Vec<(IdentId, ClassId)> = self[parent]
+                .constants
+                .iter()
+                .filter_map(|(name, state)| {
+                    let m = state.loaded_value()?.is_class_or_module()?;
+                    m.is_singleton().is_none().then_some((*name, m.id()))
+                })
+                .collect();
+            for (name, id) in &bound {
+                if self[*id].is_name_permanent() {
                     continue;
                 }
-                if self[id].parent_id() != Some(parent) {
-                    continue;
-                }
-                if self[id].get_name().is_none() {
-                    // No own name — nothing to promote, and it can't
-                    // have permanent named descendants either (a
-                    // permanent name is propagated through named
-                    // ancestors only).
-                    continue;
-                }
-                if !self[id].is_name_permanent() {
-                    to_promote.push((id, parent));
-                }
-                stack.push(id);
-            }
-        }
-        for (id, parent) in to_promote {
-            // If `set_temporary_name` had overridden the leaf, find
-            // the original constant-bound leaf name on the parent and
-            // restore it. Otherwise keep the existing leaf — it's
-            // already the constant-bound one.
-            if self[id].is_name_explicit_temporary()
-                && let Some(original) = self.find_constant_binding(parent, id)
-            {
-                self[id].set_name(original.get_name().to_string());
+                let leaf = bound
+                    .iter()
+                    .filter(|(_, child)| child == id)
+                    .map(|(name, _)| name.get_name())
+                    .find(|name| self[*id].get_name() == Some(name.as_str()))
+                    .unwrap_or_else(|| name.get_name());
+                self[*id].set_parent(parent);
+                // Also marks the name permanent and drops the
+                // explicit-temporary flag and the cached name Value.
+                self[*id].set_name(leaf);
+                stack.push(*id);
             }
-            self[id].set_name_permanent(true);
-            // Drop the explicit-temporary flag too, otherwise
-            // `get_class_name` would still short-circuit to the bare
-            // leaf and skip the parent-chain rendering.
-            self[id].clear_explicit_temporary();
-            self[id].invalidate_cached_name_value();
         }
         // Also invalidate the root's cached name Value: it may have
         // been previously rendered as anonymous.
@@ -520,23 +498,6 @@ impl ClassInfoTable {
         }
         self[root].invalidate_cached_name_value();
     }
-
-    /// Walk `parent`'s constant table looking for an entry whose
-    /// loaded value is the class/module `child`. Returns the binding
-    /// `IdentId` if found, used by `propagate_permanent_name` to
-    /// restore the constant-bound leaf name when a temporary is
-    /// overridden.
-    fn find_constant_binding(&self, parent: ClassId, child: ClassId) -> Option<IdentId> {
-        for (name, state) in self[parent].constants.iter() {
-            if let ConstStateKind::Loaded(v) = state.kind
-                && let Some(m) = v.is_class_or_module()
-                && m.id() == child
-            {
-                return Some(*name);
-            }
-        }
-        None
-    }
 }
 
 impl Globals {
-- 
2.43.0


From c3648bdf40a9fc95ca3c91f0c9d7b37f0851842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:43:07 +0000
Subject: [PATCH 61/64] fix: leave out the parents of a temporary name in the
 names of its constants

Module#name of the module with the temporary name is that name alone,
but its constants were shown below the parents of the module as well.
---
 monoruby/src/globals/store/class.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 111e9d1..503c95d 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -870,7 +870,8 @@ impl ClassInfoTable {
     pub(crate) fn get_parents(&self, mut class: ClassId) -> Vec<String> {
         let mut parents = vec![self[class].name.clone().unwrap()];
         while let Some(parent) = self[class].parent {
-            if parent == OBJECT_CLASS {
+            // A name set by `Module#set_temporary_name` stands for itself.
+            if parent == OBJECT_CLASS || self[class].is_name_explicit_temporary() {
                 break;
             }
             match self[parent].name.as_ref() {
-- 
2.43.0


From a6a4bac4e5f0bc47a48851bebcd35ad19370bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:28:13 +0000
Subject: [PATCH 62/64] fix: round negative rationals beyond the half away from
 zero

Rational(-3, 4).round answered 0.
---
 monoruby/src/value/rvalue/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index 0d8698c..f1d4447 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -273,7 +273,7 @@ impl RationalInner {
             let abs_doubled = doubled.abs();
             let abs_den = self.den.abs();
             let result = if abs_doubled > abs_den {
-                if self.num >= BigInt::ZERO { q + 1 } else { q }
+                if self.num >= BigInt::ZERO { q + 1 } else { q - 1 }
             } else if abs_doubled < abs_den {
                 if self.num >= BigInt::ZERO { q } else { q }
             } else {
-- 
2.43.0


From 07fc5fa2916582e41c4cafc6e1acd8117f8ce07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:28:13 +0000
Subject: [PATCH 63/64] fix: keep the fraction when a rational is rounded to
 tens

floor, ceil and round with negative digits dropped the fraction before
they rounded: Rational(-1, 2).floor(-1) was 0 and Rational(301, 2).round(-2,
half: :down) was 100.
---
 monoruby/src/value/rvalue/rational.rs | 50 ++++++---------------------
 1 file changed, 10 insertions(+), 40 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index f1d4447..9290d94 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -206,8 +206,8 @@ impl RationalInner {
             RationalFloorResult::Rational(Self::new(floored, d))
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            RationalFloorResult::Integer(num::integer::Integer::div_floor(&i, &d) * &d)
+            let floored = num::integer::Integer::div_floor(&self.num, &(&self.den * &d));
+            RationalFloorResult::Integer(floored * &d)
         }
     }
 
@@ -230,10 +230,9 @@ impl RationalInner {
             RationalFloorResult::Rational(Self::new(ceiled, d))
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            // ceil = -floor(-i, d)
-            let neg_i = -&i;
-            let floored = num::integer::Integer::div_floor(&neg_i, &d);
+            // ceil = -floor(-self, d)
+            let neg_num = -self.num.clone();
+            let floored = num::integer::Integer::div_floor(&neg_num, &(&self.den * &d));
             RationalFloorResult::Integer(-floored * &d)
         }
     }
@@ -313,41 +312,12 @@ impl RationalInner {
             }
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            // Round the integer at the given digit position
-            let (q, r) = num::integer::Integer::div_rem(&i, &d);
-            let doubled = &r * BigInt::from(2);
-            let abs_doubled = doubled.abs();
-            let result = if abs_doubled > d.abs() {
-                if i >= BigInt::ZERO {
-                    (q + 1) * &d
-                } else {
-                    (q - 1) * &d
-                }
-            } else if abs_doubled < d.abs() {
-                q * &d
+            let scaled = Self::new(self.num.clone(), &self.den * &d);
+            if let RationalFloorResult::Integer(rounded) = scaled.rational_round(0, half) {
+                RationalFloorResult::Integer(rounded * d)
             } else {
-                match half {
-                    Some(crate::value::RoundHalf::Down) => q * &d,
-                    Some(crate::value::RoundHalf::Even) => {
-                        if (&q % 2u32).is_zero() {
-                            q * &d
-                        } else if i >= BigInt::ZERO {
-                            (q + 1) * &d
-                        } else {
-                            (q - 1) * &d
-                        }
-                    }
-                    _ => {
-                        if i >= BigInt::ZERO {
-                            (q + 1) * &d
-                        } else {
-                            (q - 1) * &d
-                        }
-                    }
-                }
-            };
-            RationalFloorResult::Integer(result)
+                unreachable!()
+            }
         }
     }
 
-- 
2.43.0


From 8b72f26d3334d15995f5ed8d5c1636cc1b5905cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:28:13 +0000
Subject: [PATCH 64/64] fix: rationalize to 0 when 0 is within the tolerance

0.25.rationalize(Rational(1, 2)) answered (1/2).
---
 monoruby/src/value/rvalue/rational.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index 9290d94..dace5b6 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -362,15 +362,10 @@ impl RationalInner {
         let lo = value.sub(&eps_abs);
         let hi = value.add(&eps_abs);
         let zero = Self::new(0, 1);
-        // If range includes zero or is entirely negative, return 0
-        if hi.cmp(&zero) == std::cmp::Ordering::Less {
+        // If range includes zero, return 0
+        if lo.cmp(&zero) != std::cmp::Ordering::Greater {
             return zero;
         }
-        let lo = if lo.cmp(&zero) == std::cmp::Ordering::Less {
-            zero
-        } else {
-            lo
-        };
         let mut p0 = BigInt::from(0);
         let mut q0 = BigInt::from(1);
         let mut p1 = BigInt::from(1);
-- 
2.43.0

