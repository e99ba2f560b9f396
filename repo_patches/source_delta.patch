From 2168093e67515ff9eaf17a25504cf8fdcc33af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 01/12] Add scheduling points for model checking (cfg
 noodle_mc)

---
 crates/cfg-noodle/src/lib.rs          |   6 ++
 crates/cfg-noodle/src/mc_hooks.rs     | 104 ++++++++++++++++++++++++++
 crates/cfg-noodle/src/storage_node.rs |   7 +-
 3 files changed, 116 insertions(+), 1 deletion(-)
 create mode 100644 crates/cfg-noodle/src/mc_hooks.rs

diff --git a/crates/cfg-noodle/src/lib.rs b/crates/cfg-noodle/src/lib.rs
index 282ae98..c810b8b 100644
--- a/crates/cfg-noodle/src/lib.rs
+++ b/crates/cfg-noodle/src/lib.rs
@@ -9,6 +9,8 @@
     clippy::uninlined_format_args,
     reason = "Having inlined variables does not work with defmt"
 )]
+// `noodle_mc` is only ever set by the external model checking harness
+#![allow(unexpected_cfgs)]
 
 pub mod data_portability;
 pub mod error;
@@ -26,6 +28,10 @@ pub use sequential_storage;
 #[doc(hidden)]
 pub mod test_utils;
 
+#[cfg(noodle_mc)]
+#[doc(hidden)]
+pub mod mc_hooks;
+
 mod storage_list;
 mod storage_node;
 
diff --git a/crates/cfg-noodle/src/mc_hooks.rs b/crates/cfg-noodle/src/mc_hooks.rs
new file mode 100644
index 0000000..67a04dd
--- /dev/null
+++ b/crates/cfg-noodle/src/mc_hooks.rs
@@ -0,0 +1,104 @@
+//! Scheduling points for model checking (only built with `--cfg noodle_mc`)
+//!
+//! The atomics that coordinate nodes, handles and the list are replaced by thin
+//! wrappers which call a hook before and after every access, so that a controlled
+//! scheduler can preempt the calling thread there. The behaviour is otherwise unchanged.
+
+use core::{
+    mem::transmute,
+    ops::{Deref, DerefMut},
+    ptr::null_mut,
+    sync::atomic::{self, Ordering},
+};
+
+static POINT: atomic::AtomicPtr<()> = atomic::AtomicPtr::new(null_mut());
+
+/// Sets the function that is called around every access to a wrapped atomic
+pub fn set_point_hook(f: fn()) {
+    POINT.store(f as *mut (), Ordering::SeqCst);
+}
+
+fn point() {
+    let f = POINT.load(Ordering::SeqCst);
+    if !f.is_null() {
+        // SAFETY: only ever set from a `fn()` in `set_point_hook`
+        let f: fn() = unsafe { transmute::<*mut (), fn()>(f) };
+        f();
+    }
+}
+
+fn around<R>(f: impl FnOnce() -> R) -> R {
+    point();
+    let r = f();
+    point();
+    r
+}
+
+/// An atomic that calls the hook around every access
+#[repr(transparent)]
+pub struct Hooked<A>(A);
+
+impl<A> Deref for Hooked<A> {
+    type Target = A;
+    fn deref(&self) -> &A {
+        point();
+        &self.0
+    }
+}
+
+impl<A> DerefMut for Hooked<A> {
+    fn deref_mut(&mut self) -> &mut A {
+        &mut self.0
+    }
+}
+
+/// Hooked version of [`core::sync::atomic::AtomicU8`]
+pub type AtomicU8 = Hooked<atomic::AtomicU8>;
+
+/// Hooked version of [`core::sync::atomic::AtomicPtr`]
+pub type AtomicPtr<T> = Hooked<atomic::AtomicPtr<T>>;
+
+macro_rules! hooked {
+    ([$($gen:tt)*] $hooked:ty, $val:ty, $inner:path) => {
+        #[allow(missing_docs)]
+        impl $($gen)* $hooked {
+            pub const fn new(val: $val) -> Self {
+                Self($inner(val))
+            }
+            pub fn load(&self, order: Ordering) -> $val {
+                around(|| self.0.load(order))
+            }
+            pub fn store(&self, val: $val, order: Ordering) {
+                around(|| self.0.store(val, order))
+            }
+            pub fn swap(&self, val: $val, order: Ordering) -> $val {
+                around(|| self.0.swap(val, order))
+            }
+            pub fn compare_exchange(
+                &self,
+                current: $val,
+                new: $val,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$val, $val> {
+                around(|| self.0.compare_exchange(current, new, success, failure))
+            }
+        }
+    };
+}
+
+hooked!([] AtomicU8, u8, atomic::AtomicU8::new);
+hooked!([<T>] AtomicPtr<T>, *mut T, atomic::AtomicPtr::new);
+
+impl<T> AtomicPtr<T> {
+    /// See [`core::sync::atomic::AtomicPtr::fetch_update`]
+    pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        f: F,
+    ) -> Result<*mut T, *mut T> {
+        #[allow(deprecated)]
+        around(|| self.0.fetch_update(set_order, fetch_order, f))
+    }
+}
diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index b056ce7..bf6d879 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -13,8 +13,13 @@ use core::{
     marker::{PhantomData, PhantomPinned},
     mem::MaybeUninit,
     ptr::{self, NonNull, null_mut},
-    sync::atomic::{AtomicPtr, AtomicU8, Ordering},
+    sync::atomic::Ordering,
 };
+#[cfg(not(noodle_mc))]
+use core::sync::atomic::{AtomicPtr, AtomicU8};
+
+#[cfg(noodle_mc)]
+use crate::mc_hooks::{AtomicPtr, AtomicU8};
 use minicbor::{
     CborLen, Decode, Encode,
     encode::write::{Cursor, EndOfSlice},
-- 
2.43.0


From 1a87b309e62a66e5a148434d8ba9466efc6f811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 02/12] fix: do not treat a partial storage scan as complete

When the initial scan was stopped by a storage error or by cancelling
the call, the records found so far had already been entered into the
cached state, so the next call took them for the whole contents: old
values were loaded, and the next write reused a sequence number.
---
 crates/cfg-noodle/src/storage_list.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index e1b8438..ec8303f 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -630,6 +630,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
 
         // We have NOT hydrated, do so now.
         //
+        // Collect the result of the scan separately, and only keep it if we get to the end:
+        // if the scan is stopped half way, we must not mistake what we have seen so far for
+        // the whole contents of the storage.
+        let mut scanned = SeqState::new();
+
         // Start by getting an iterator, and setting up some tracking state
         let mut iter = s.iter_elems().await.map_err(LoadStoreError::FlashRead)?;
         let mut current: Option<(NonZeroU32, usize)> = None;
@@ -696,7 +701,7 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
                         start_idx,
                         idx
                     );
-                    self.seq_state.insert_good(GoodWriteRecord {
+                    scanned.insert_good(GoodWriteRecord {
                         seq: seq_no,
                         range: start_idx..=idx,
                     });
@@ -704,10 +709,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
             }
         }
 
-        let highest = self.seq_state.highest_seen();
+        let highest = scanned.highest_seen();
         if highest.is_none() {
-            self.seq_state.next_seq = NonZeroU32::new(1);
+            scanned.next_seq = NonZeroU32::new(1);
         }
+        self.seq_state = scanned;
 
         Ok(highest)
     }
-- 
2.43.0


From a3eca94452dadc325b1684ae09a675ab8673c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 03/12] fix: clean up after an incomplete write before the next
 one

A write that failed, was cancelled or was cut off by power loss left part
of a record in storage, but no garbage collection was required before
the next write. That reused the sequence number, found the leftover
instead of its own record when verifying, and failed with
WriteVerificationFailed for ever (or acknowledged a record that shares
its number with another one). If it was the first record ever, this even
survived a restart.
---
 crates/cfg-noodle/src/storage_list.rs | 42 +++++++++++++++++++++------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index ec8303f..c5d3232 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -354,14 +354,14 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
         let mut inner = self.inner.lock().await;
         debug!("process_writes locked list");
 
-        let Some(next_seq) = inner.seq_state.next_seq else {
-            return Err(LoadStoreError::AppError(Error::NeedsFirstRead));
-        };
-
         if inner.seq_state.needs_gc {
             return Err(LoadStoreError::AppError(Error::NeedsGarbageCollect));
         }
 
+        let Some(next_seq) = inner.seq_state.next_seq else {
+            return Err(LoadStoreError::AppError(Error::NeedsFirstRead));
+        };
+
         let needs_writing = inner.needs_writing()?;
 
         // If the list is unchanged, there is no need to write it to flash!
@@ -375,6 +375,12 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
 
         debug!("Attempt write_to_flash");
 
+        // Until the new record has been verified, the storage may contain a partial or
+        // unacknowledged record, also if we are cancelled. Keep our knowledge of the storage
+        // only if all goes well, and otherwise require a garbage collection, that re-scans
+        // the storage and removes what was left behind, before the next write.
+        let mut seq_state = core::mem::replace(&mut inner.seq_state, SeqState::interrupted());
+
         // TODO: Retries have to be handled in the OUTER context, so we can
         // start over from the beginning.
         let rpt = inner.write_to_flash(buf, storage, next_seq).await?;
@@ -389,10 +395,11 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
             range.start(),
             range.end()
         );
-        inner.seq_state.insert_good(GoodWriteRecord {
+        seq_state.insert_good(GoodWriteRecord {
             seq: next_seq,
             range,
         });
+        inner.seq_state = seq_state;
 
         // The write must have succeeded. So mark all nodes accordingly.
         for hdrref in inner.list.iter() {
@@ -437,6 +444,10 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
         storage: &mut S,
         buf: &mut [u8],
     ) -> Result<ProcessGarbageCounters, LoadStoreError<S::Error>> {
+        // Setup counters
+        let mut total_bytes_read = 0;
+        let mut total_bytes_popped = 0;
+
         // Take the mutex for a short time to copy out the current seq_state.
         let cur_seq_state = {
             let mut guard = self.inner.lock().await;
@@ -449,6 +460,11 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
                 });
             }
 
+            // If a previous write did not complete, find out what there is first.
+            guard
+                .get_or_populate_latest(storage, buf, &mut total_bytes_read)
+                .await?;
+
             // Take the seq_state to inhibit any other reads/writes until
             // we successfully complete, AND that a re-index will be required
             // even if we early-return here
@@ -467,10 +483,6 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
                 .any(|r| r.range.contains(&n))
         };
 
-        // Setup counters
-        let mut total_bytes_read = 0;
-        let mut total_bytes_popped = 0;
-
         // Create an iterator
         let mut elems = storage
             .iter_elems()
@@ -713,6 +725,9 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         if highest.is_none() {
             scanned.next_seq = NonZeroU32::new(1);
         }
+        // Anything in the storage, even if it is not part of a valid record, may get in the
+        // way of the next write, and has to be collected first.
+        scanned.needs_gc = ctr > 0;
         self.seq_state = scanned;
 
         Ok(highest)
@@ -1036,6 +1051,15 @@ impl<const KEPT_RECORDS: usize> SeqState<KEPT_RECORDS> {
         }
     }
 
+    /// The state to use while the storage is being modified: if that is not completed, the
+    /// storage must be re-scanned, and a garbage collection is needed before the next write.
+    const fn interrupted() -> Self {
+        Self {
+            needs_gc: true,
+            ..Self::new()
+        }
+    }
+
     /// Have we hydrated from the external flash?
     #[inline]
     fn initial_scan_completed(&self) -> bool {
-- 
2.43.0


From e888705072c6810a7e111143fc0c12ebc9d95bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:52 +0000
Subject: [PATCH 04/12] fix: let an interrupted garbage collection be completed
 later

After a storage error or cancellation during garbage collection, the list
forgot that collection is still due as well as the contents of storage:
collecting again did nothing, and writing was refused as needing a first
read, although no node was waiting for one that would trigger it.
---
 crates/cfg-noodle/src/storage_list.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index c5d3232..b54a88a 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -460,15 +460,15 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
                 });
             }
 
-            // If a previous write did not complete, find out what there is first.
+            // If a previous write or collection did not complete, find out what there is first.
             guard
                 .get_or_populate_latest(storage, buf, &mut total_bytes_read)
                 .await?;
 
             // Take the seq_state to inhibit any other reads/writes until
-            // we successfully complete, AND that a re-index will be required
-            // even if we early-return here
-            core::mem::replace(&mut guard.seq_state, SeqState::new())
+            // we successfully complete, AND that a re-index and another garbage
+            // collection will be required even if we early-return here
+            core::mem::replace(&mut guard.seq_state, SeqState::interrupted())
         };
 
         // Helper function that iterates over each present GoodWriteRecord,
-- 
2.43.0


From 0e92579fff9e87f796b5f55a0372abda925de4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:57 +0000
Subject: [PATCH 05/12] fix: make a node available again when its attach is
 cancelled

---
 crates/cfg-noodle/src/safety_guide.rs |  2 +-
 crates/cfg-noodle/src/storage_node.rs | 32 +++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/safety_guide.rs b/crates/cfg-noodle/src/safety_guide.rs
index 33bea79..37d86fa 100644
--- a/crates/cfg-noodle/src/safety_guide.rs
+++ b/crates/cfg-noodle/src/safety_guide.rs
@@ -70,7 +70,7 @@
 //!     1. When attaching a Node to a List, the list's mutex is locked AND:
 //!         1. The "List Pointer" is currently null, OR
 //!         2. The "List Pointer" points to the list we are attaching to, and we are re-attaching
-//!     2. When dropping a `StorageListNodeHandle`:
+//!     2. When dropping a `StorageListNodeHandle`, or an unfinished `attach()` that has taken the Node:
 //!         1. The lowest bit of the "List Pointer" is changed from `0b1` to `0b0`
 //!     3. When detaching a Node from a List:
 //!         1. No `StorageListNodeHandle` is live for this Node, AND
diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index bf6d879..fbe35f6 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -347,6 +347,7 @@ where
     {
         debug!("Attaching new node");
         let already_attached;
+        let taken;
 
         // Add a scope so that the list mutex is unlocked afterwards
         {
@@ -437,6 +438,12 @@ where
                 }
             }
 
+            // The node is in the list and taken, but there is no handle yet. If we are
+            // cancelled from here on, the node must be available again.
+            taken = ReleaseOnDrop {
+                taken_for_list: &self.taken_for_list,
+            };
+
             // Let read task know we MAY have work. This may not be true if we
             // are re-attaching, but `process_reads` is smart enough to skip
             // a read if no nodes actually are in a state where they need data.
@@ -503,6 +510,9 @@ where
             State::ValidNoWriteNeeded => (),
         }
 
+        // The handle takes over the responsibility for releasing the node
+        core::mem::forget(taken);
+
         // SAFETY:
         // - Rule 6.1: The node is attached to a list
         // - Rule 6.2: No other handles exist
@@ -631,6 +641,28 @@ where
     }
 }
 
+/// Clears the "is taken" bit of a node again if [`StorageListNode::attach`] is cancelled
+/// before it has created a handle
+struct ReleaseOnDrop<'a> {
+    taken_for_list: &'a AtomicPtr<()>,
+}
+
+impl Drop for ReleaseOnDrop<'_> {
+    fn drop(&mut self) {
+        let res =
+            self.taken_for_list
+                .fetch_update(Ordering::Release, Ordering::Acquire, |old| {
+                    debug_assert_eq!((old as usize) & 1, 1, "'is taken' bit should be set");
+
+                    // SAFETY: `attach` has set the bit by adding one byte to the pointer to the list.
+                    //
+                    // Rule 2.2.1 - We are dropping an attach that has not created its handle yet
+                    Some(unsafe { old.byte_sub(1) })
+                });
+        debug_assert!(res.is_ok());
+    }
+}
+
 /// SAFETY: Sync-safety is guaranteed by adhering to the rules in the [`crate::safety_guide`]
 /// and the StorageList mutex.
 unsafe impl<T> Sync for StorageListNode<T> where T: Send + 'static + MaybeDefmtFormat {}
-- 
2.43.0


From cf4d092dabcc0b40286e2611cd99cc7493efda6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 06/12] fix: do not lose signals in default_worker_task

The worker waits for its read and write signals in futures that are dropped
whenever one of them completes. A signal that was received by a dropped future
(and was being debounced) was forgotten, so that pending writes were never
flushed and waiting attaches never served until the next signal.
---
 crates/cfg-noodle/src/worker_task.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 5427418..a7ddf7d 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -63,13 +63,20 @@ pub async fn default_worker_task<
     let waker_future = async {
         let mut first_gc_done = false;
         let needs_gc: Signal<NoopRawMutex, Duration> = Signal::new();
+        // Signals that have been received but not served yet. The futures below are dropped
+        // whenever another one completes first, these must not be forgotten then.
+        let mut read_pending = false;
+        let mut write_pending = false;
 
         // Wait for either the needs_read or needs_write to be signaled
         loop {
             let read_fut = async {
                 // Wait for needs_read to be signaled once
-                debug!("worker_task waiting for needs_read signal");
-                list.needs_read().await;
+                if !read_pending {
+                    debug!("worker_task waiting for needs_read signal");
+                    list.needs_read().await;
+                    read_pending = true;
+                }
 
                 // Run debounce loop that breaks when needs_read hasn't been signaled
                 // for more than 100ms
@@ -87,9 +94,12 @@ pub async fn default_worker_task<
                 }
             };
             let write_fut = async {
-                // Wait for needs_read to be signaled once
-                debug!("worker_task waiting for needs_write signal");
-                list.needs_write().await;
+                // Wait for needs_write to be signaled once
+                if !write_pending {
+                    debug!("worker_task waiting for needs_write signal");
+                    list.needs_write().await;
+                    write_pending = true;
+                }
 
                 // Run debounce loop that breaks when needs_write hasn't been signaled
                 // for more than 100ms
@@ -118,6 +128,7 @@ pub async fn default_worker_task<
                 // needs_read signaled
                 Either3::First(_) => {
                     info!("worker task got needs_read signal, processing reads");
+                    read_pending = false;
 
                     match list.process_reads(&mut flash, buf).await {
                         Ok(rpt) => info!("process_reads success: {:?}", rpt),
@@ -139,6 +150,7 @@ pub async fn default_worker_task<
                 // needs_write signaled
                 Either3::Second(_) => {
                     info!("worker task got needs_write signal, first process_garbage then write");
+                    write_pending = false;
 
                     match list.process_garbage(&mut flash, buf).await {
                         Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-- 
2.43.0


From 731c200ffc0cf9b39909f0bf164a77ea2e917a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:03 +0000
Subject: [PATCH 07/12] fix: write pending changes when a node is attached just
 before

A node that has not been loaded yet makes process_writes fail with
NeedsFirstRead. When that happened in the default worker's flush or when it is
stopped, the changes of all other nodes were not written.
---
 crates/cfg-noodle/src/worker_task.rs | 68 ++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index a7ddf7d..e431e3d 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -10,7 +10,7 @@ use crate::{
     NdlDataStorage, StorageList,
     error::{Error, LoadStoreError},
     flash::empty::AlwaysEmptyFlash,
-    logging::{debug, error, info, warn},
+    logging::{debug, error, info},
 };
 
 /// A default worker task that manages storage operations based on read/write signals.
@@ -156,10 +156,7 @@ pub async fn default_worker_task<
                         Ok(rpt) => info!("process_garbage success: {:?}", rpt),
                         Err(e) => error!("Error in process_garbage: {:?}", e),
                     }
-                    match list.process_writes(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                        Err(e) => error!("Error in process_writes: {:?}", e),
-                    }
+                    write_pending_changes(list, &mut flash, buf).await;
 
                     info!("worker task finished process_writes, triggering process_garbage");
                     match list.process_garbage(&mut flash, buf).await {
@@ -188,25 +185,56 @@ pub async fn default_worker_task<
     let Either::Second(_) = select(waker_future, stopper).await;
 
     info!("stopper future completed, stopping worker task");
-    match list.process_writes(&mut flash, buf).await {
-        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-        Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
-            match list.process_garbage(&mut flash, buf).await {
-                Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-                Err(e) => error!("Error in process_garbage: {:?}", e),
+    write_pending_changes(list, &mut flash, buf).await;
+
+    info!("worker task stopped!");
+}
+
+/// Write all pending changes, after loading newly attached nodes and collecting garbage if that
+/// has to be done first
+async fn write_pending_changes<
+    R: ScopedRawMutex + Sync,
+    S: NdlDataStorage,
+    const KEPT_RECORDS: usize,
+>(
+    list: &'static StorageList<R, KEPT_RECORDS>,
+    flash: &mut S,
+    buf: &mut [u8],
+) where
+    S::Error: Debug,
+{
+    // A node may be attached at any time, so allow for more than one round
+    for _ in 0..4 {
+        match list.process_writes(flash, buf).await {
+            Ok(rpt) => {
+                info!("process_writes success: {:?}", rpt);
+                return;
             }
-            match list.process_writes(&mut flash, buf).await {
-                Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                Err(e) => error!("Error in process_writes: {:?}", e),
+            Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
+                match list.process_garbage(flash, buf).await {
+                    Ok(rpt) => info!("process_garbage success: {:?}", rpt),
+                    Err(e) => {
+                        error!("Error in process_garbage: {:?}", e);
+                        return;
+                    }
+                }
+            }
+            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
+                match list.process_reads(flash, buf).await {
+                    Ok(rpt) => info!("process_reads success: {:?}", rpt),
+                    Err(e) => {
+                        error!("Error in process_reads: {:?}", e);
+                        return;
+                    }
+                }
+            }
+            Err(e) => {
+                error!("Error in process_writes: {:?}", e);
+                return;
             }
         }
-        Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
-            warn!("closing worker without performing first read");
-        }
-        Err(e) => error!("Error in process_writes: {:?}", e),
     }
-
-    info!("worker task stopped!");
+    error!("Could not write pending changes");
 }
 
 /// A worker tasks that always reads no entries and ignores all writes
-- 
2.43.0


From f6afa58409aa24816d5ccb849ec92372754a66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 08/12] fix: a duplicate key no longer marks the node as taken
 for a moment

An attach that is refused with DuplicateKey took the node first and gave it back
afterwards. In between, calls for other lists, which do not wait for this list's
mutex, were refused with NodeInOtherList although the node was in no list.
---
 crates/cfg-noodle/src/storage_node.rs | 43 +++++++++++++++------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index fbe35f6..59b7bf8 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -381,6 +381,26 @@ where
             // SAFETY: the const asserts above ensure that this is safe to do.
             let list_ptr_taken: *mut () = unsafe { list_ptr.byte_add(1) };
 
+            let noderef: &'static Node<T> = &self.inner;
+            let key: &'static str = noderef.header.key;
+            let nodenn: NonNull<Node<T>> = NonNull::from(noderef);
+            // NOTE: We EXPLICITLY cast the outer Node<T> ptr, instead of using the header
+            // pointer, so when we cast back later, the pointer has the correct provenance!
+            let hdrnn: NonNull<NodeHeader> = nodenn.cast();
+
+            // Check if the key is already used by another node in the list. This has to be
+            // checked before taking the node: calls for other lists do not wait for our mutex,
+            // and would otherwise see a node in this list that is never attached to it.
+            if inner.find_node(key).is_some_and(|other| other != hdrnn) {
+                return if self.taken_for_list.load(Ordering::Acquire).is_null() {
+                    error!("Key already in use: {:?}", key);
+                    Err(Error::DuplicateKey)
+                } else {
+                    error!("Node already exists in other list");
+                    Err(Error::NodeInOtherList)
+                };
+            }
+
             // Attempt to swap the contents with a pointer to the current list
             let old =
                 self.taken_for_list
@@ -417,25 +437,10 @@ where
             // Check: passed! If we are already attached to this list, we do not need
             // (or want!) to re-run the attach logic.
             if !already_attached {
-                let noderef: &'static Node<T> = &self.inner;
-                let key: &'static str = noderef.header.key;
-                let nodenn: NonNull<Node<T>> = NonNull::from(noderef);
-                // NOTE: We EXPLICITLY cast the outer Node<T> ptr, instead of using the header
-                // pointer, so when we cast back later, the pointer has the correct provenance!
-                let hdrnn: NonNull<NodeHeader> = nodenn.cast();
-
-                // Check if the key already exists in the list.
-                // This also prevents attaching to the list more than once.
-                if inner.find_node(key).is_some() {
-                    error!("Key already in use: {:?}", key);
-                    self.taken_for_list.store(null_mut(), Ordering::Release);
-                    return Err(Error::DuplicateKey);
-                } else {
-                    // SAFETY:
-                    // Rule 5.1.1: Node is not in a list
-                    // Rule 5.1.2: the mutex is held
-                    inner.list.push_front(hdrnn);
-                }
+                // SAFETY:
+                // Rule 5.1.1: Node is not in a list
+                // Rule 5.1.2: the mutex is held
+                inner.list.push_front(hdrnn);
             }
 
             // The node is in the list and taken, but there is no handle yet. If we are
-- 
2.43.0


From c7b2f5e474af9a3799859bead49015e6beb8275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 09/12] fix: report a value that does not fit the buffer
 instead of panicking

With debug assertions, serializing a value larger than the buffer compared
the truncated length with the length of the value before looking at the
result, and panicked where an error was to be returned.
---
 crates/cfg-noodle/src/storage_node.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index 59b7bf8..49e85a4 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -921,12 +921,14 @@ where
         len_with(tref, &mut ()),
         &cursor.get_ref()[..cursor.position()],
     );
-    // Make sure len_with returns the correct number of bytes
-    // Important because we depend on it in deserialize()
-    debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
 
     match res {
-        Ok(()) => Ok(cursor.position()),
+        Ok(()) => {
+            // Make sure len_with returns the correct number of bytes
+            // Important because we depend on it in deserialize()
+            debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
+            Ok(cursor.position())
+        }
         Err(_e) => {
             // We know this was an "end of slice" error
             Err(())
-- 
2.43.0


From 30d9cb46d73074e41cbbf1f5f5a33fddacae80c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 10/12] fix: limit the element size to what the queue can store

With pages larger than 64 KiB, check_node_size accepted values that can
never be written, because the queue refuses items over 65535 bytes.
---
 crates/cfg-noodle/src/flash.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/flash.rs b/crates/cfg-noodle/src/flash.rs
index 202f577..b479b39 100644
--- a/crates/cfg-noodle/src/flash.rs
+++ b/crates/cfg-noodle/src/flash.rs
@@ -158,7 +158,17 @@ where
         let item_metadata = QueueStorage::<T, C>::item_overhead_size() as usize;
 
         // The max size is the baseline minus any overhead.
-        baseline - sector_metadata - item_metadata
+        let max_in_sector = baseline - sector_metadata - item_metadata;
+
+        // The queue stores the length of an item as u16
+        let max_item = u16::MAX as usize;
+        let max_item = max_item - max_item % crate::max(T::WRITE_SIZE, T::READ_SIZE);
+
+        if max_in_sector < max_item {
+            max_in_sector
+        } else {
+            max_item
+        }
     };
 }
 
-- 
2.43.0


From dbe14a9c4f1ffce03eb23a9f72ba3ae7e806792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 11/12] fix: refuse a value that only fits the buffer without
 its padding

With a buffer that is not a multiple of the flash word, a value could be
written that can not be read back with that buffer. From then on every
load, flush and collection with it failed. The size is now limited as
announced by the warning about such buffers, and taking padding into
account, so that this is a serialization error like other values that are
too large.
---
 crates/cfg-noodle/src/flash.rs        | 2 ++
 crates/cfg-noodle/src/lib.rs          | 5 +++++
 crates/cfg-noodle/src/storage_list.rs | 6 ++++++
 3 files changed, 13 insertions(+)

diff --git a/crates/cfg-noodle/src/flash.rs b/crates/cfg-noodle/src/flash.rs
index b479b39..e02814b 100644
--- a/crates/cfg-noodle/src/flash.rs
+++ b/crates/cfg-noodle/src/flash.rs
@@ -147,6 +147,8 @@ where
         Ok(size_with_overhead::<T>(used.len()))
     }
 
+    const ELEM_ALIGNMENT: usize = crate::max(T::WRITE_SIZE, T::READ_SIZE);
+
     const MAX_ELEM_SIZE: usize = const {
         // We start from the (min) erase size for the flash
         let baseline = T::ERASE_SIZE;
diff --git a/crates/cfg-noodle/src/lib.rs b/crates/cfg-noodle/src/lib.rs
index c810b8b..3db17e0 100644
--- a/crates/cfg-noodle/src/lib.rs
+++ b/crates/cfg-noodle/src/lib.rs
@@ -278,6 +278,10 @@ pub trait NdlDataStorage {
     /// CBOR-serialized value.
     const MAX_ELEM_SIZE: usize;
 
+    /// The number of bytes an `Elem` is padded to a multiple of, when it is read into a
+    /// buffer by [`NdlElemIter::next()`]. The padding must fit in that buffer too.
+    const ELEM_ALIGNMENT: usize = 1;
+
     /// Checks whether the size of the `key` and `node` fit into the maximium
     /// element size of this `NdlDataStorage`.
     ///
@@ -310,6 +314,7 @@ impl<T: NdlDataStorage> NdlDataStorage for &mut T {
     }
 
     const MAX_ELEM_SIZE: usize = T::MAX_ELEM_SIZE;
+    const ELEM_ALIGNMENT: usize = T::ELEM_ALIGNMENT;
 }
 
 /// An iterator over `Elem`s stored in the queue.
diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index b54a88a..a532136 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -922,6 +922,12 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         bytes_written += used;
         let mut ctr = 0;
 
+        // An element must fit in the storage, and, together with its padding, in the buffer: or
+        // it could never be read back, and be in the way of everything written after it.
+        let usable = buf.len().min(S::MAX_ELEM_SIZE);
+        let usable = usable - usable % S::ELEM_ALIGNMENT;
+        let buf = &mut buf[..usable];
+
         for hdrptr in iter {
             // First: is this a node that is VALID for serialization?
             let state = {
-- 
2.43.0


From 45f77a52e285661f32fe3d71a01b1a656a15a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:09 +0000
Subject: [PATCH 12/12] Scheduling points around wake-ups for model checking
 (cfg noodle_mc)

---
 crates/cfg-noodle/src/mc_hooks.rs     | 23 +++++++++++++++++++++++
 crates/cfg-noodle/src/storage_list.rs |  6 +++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/mc_hooks.rs b/crates/cfg-noodle/src/mc_hooks.rs
index 67a04dd..bb9c04c 100644
--- a/crates/cfg-noodle/src/mc_hooks.rs
+++ b/crates/cfg-noodle/src/mc_hooks.rs
@@ -102,3 +102,26 @@ impl<T> AtomicPtr<T> {
         around(|| self.0.fetch_update(set_order, fetch_order, f))
     }
 }
+
+/// A [`maitake_sync::WaitQueue`] that calls the hook around every wake-up
+pub struct WaitQueue(maitake_sync::WaitQueue);
+
+#[allow(missing_docs, clippy::new_without_default)]
+impl WaitQueue {
+    pub const fn new() -> Self {
+        Self(maitake_sync::WaitQueue::new())
+    }
+    pub fn wake(&self) {
+        around(|| self.0.wake())
+    }
+    pub fn wake_all(&self) {
+        around(|| self.0.wake_all())
+    }
+}
+
+impl Deref for WaitQueue {
+    type Target = maitake_sync::WaitQueue;
+    fn deref(&self) -> &maitake_sync::WaitQueue {
+        &self.0
+    }
+}
diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index a532136..67d08eb 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -19,7 +19,11 @@ use core::{
     ptr::{NonNull, addr_of},
     sync::atomic::Ordering,
 };
-use maitake_sync::{Mutex, WaitQueue};
+#[cfg(noodle_mc)]
+use crate::mc_hooks::WaitQueue;
+use maitake_sync::Mutex;
+#[cfg(not(noodle_mc))]
+use maitake_sync::WaitQueue;
 use minicbor::encode::write::{Cursor, EndOfSlice};
 use mutex_traits::{ConstInit, ScopedRawMutex};
 
-- 
2.43.0

