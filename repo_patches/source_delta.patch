From c25cf38f3e7573ea3906fd4d07bb736bac158add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 01/13] fix: require garbage collection after a failed or
 abandoned flush

A flush that fails or is cancelled after its first push leaves a partial
record with the sequence number the next attempt uses again. The read-back
verification of that attempt then finds the stale start element and fails,
forever, since no collection was ever due. Mark collection as due before
the first element is pushed.
---
 crates/cfg-noodle/src/storage_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index e1b8438..9ca26e9 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -375,6 +375,11 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
 
         debug!("Attempt write_to_flash");
 
+        // From here on, a failure (or cancellation) may leave a partial Write Record
+        // behind. It must be collected before `next_seq` can be used again, otherwise
+        // the verification of the next attempt would find the stale record instead.
+        inner.seq_state.needs_gc = true;
+
         // TODO: Retries have to be handled in the OUTER context, so we can
         // start over from the beginning.
         let rpt = inner.write_to_flash(buf, storage, next_seq).await?;
-- 
2.43.0


From 2e84598b022ebecbb5950140766ab32a4e1e99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 02/13] fix: collect leftovers of an interrupted first flush
 before writing

If the storage holds elements but no valid record, the next flush starts
over at sequence number 1. A stale start element with that number (power
lost during the very first flush) makes its verification fail. Require a
garbage collection whenever the scan found anything.
---
 crates/cfg-noodle/src/storage_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 9ca26e9..409111b 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -712,6 +712,9 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         let highest = self.seq_state.highest_seen();
         if highest.is_none() {
             self.seq_state.next_seq = NonZeroU32::new(1);
+            // If there is anything stored at all, it is garbage (e.g. remains of an
+            // interrupted very first write), and must be collected before writing.
+            self.seq_state.needs_gc |= ctr > 0;
         }
 
         Ok(highest)
-- 
2.43.0


From a0ba185154e138f2180ad2de7beb50f3de6713a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 03/13] fix: do not mistake an interrupted scan for a complete
 one

If the initial scan failed or was cancelled after at least one valid record,
next_seq was already set, so the next read took the partial result for the
complete one: it loaded an outdated record, the next flush re-used sequence
numbers of newer records, and the next collection removed them.
---
 crates/cfg-noodle/src/storage_list.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 409111b..56784df 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -640,6 +640,9 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         let mut current: Option<(NonZeroU32, usize)> = None;
         let mut crc = Crc32::new();
         let mut ctr = 0;
+        // Collect findings separately: only a scan that reached the end counts. If we are
+        // cancelled or fail half way, the next attempt has to start over.
+        let mut found = SeqState::new();
 
         // Loop over all elements in the storage...
         loop {
@@ -701,7 +704,7 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
                         start_idx,
                         idx
                     );
-                    self.seq_state.insert_good(GoodWriteRecord {
+                    found.insert_good(GoodWriteRecord {
                         seq: seq_no,
                         range: start_idx..=idx,
                     });
@@ -709,13 +712,14 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
             }
         }
 
-        let highest = self.seq_state.highest_seen();
+        let highest = found.highest_seen();
         if highest.is_none() {
-            self.seq_state.next_seq = NonZeroU32::new(1);
+            found.next_seq = NonZeroU32::new(1);
             // If there is anything stored at all, it is garbage (e.g. remains of an
             // interrupted very first write), and must be collected before writing.
-            self.seq_state.needs_gc |= ctr > 0;
+            found.needs_gc |= ctr > 0;
         }
+        self.seq_state = found;
 
         Ok(highest)
     }
-- 
2.43.0


From 0285319f0e024117c0b3eda0b7740e680e653f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 04/13] fix: range of a verified record must not include the
 next element

The range remembered after a flush was one element too long, so garbage
directly after the record survived the next garbage collection.
---
 crates/cfg-noodle/src/storage_list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 56784df..a7cf120 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -1304,7 +1304,8 @@ async fn verify_list_in_flash<S: NdlDataStorage>(
                     seq_chk, crc_chk1, crc_chk2, ctr_chk, good
                 );
                 if good {
-                    return Ok(RangeInclusive::new(start_pos, total_items_seen_ctr));
+                    // The end element we just saw is the last one of the record
+                    return Ok(RangeInclusive::new(start_pos, total_items_seen_ctr - 1));
                 } else {
                     return Err(LoadStoreError::WriteVerificationFailed);
                 }
-- 
2.43.0


From 4b997f083a2355093b069720eccc8b4d6e6d1668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 05/13] fix: give the node back when an attach is cancelled

Dropping the attach future while it waits for the first read left the node
marked as taken forever: it could neither be attached again nor detached.
---
 crates/cfg-noodle/src/storage_node.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index b056ce7..cf27133 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -440,6 +440,13 @@ where
             debug!("attach() release Lock on list");
         }
 
+        // The node is taken from here on. Create the handle before waiting, so that it
+        // is given back if this future is dropped before it completes.
+        let handle = StorageListNodeHandle {
+            list_ty: PhantomData,
+            inner: self,
+        };
+
         debug!("Waiting for reading_done");
 
         // We know our node is now on the list. Create a ref to the header which
@@ -502,10 +509,7 @@ where
         // - Rule 6.1: The node is attached to a list
         // - Rule 6.2: No other handles exist
         // - Rule 6.3: We have passed the Initial/NonResident state
-        Ok(StorageListNodeHandle {
-            list_ty: PhantomData,
-            inner: self,
-        })
+        Ok(handle)
     }
 
     /// Detach a node from a given list
-- 
2.43.0


From 602c54b8f231a9aa6aa2a12d0a1d700d3c3368b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 06/13] fix: a value too large for the buffer is an error, not
 a debug panic

---
 crates/cfg-noodle/src/storage_node.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index cf27133..f8440c4 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -883,12 +883,13 @@ where
         len_with(tref, &mut ()),
         &cursor.get_ref()[..cursor.position()],
     );
-    // Make sure len_with returns the correct number of bytes
-    // Important because we depend on it in deserialize()
-    debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
-
     match res {
-        Ok(()) => Ok(cursor.position()),
+        Ok(()) => {
+            // Make sure len_with returns the correct number of bytes
+            // Important because we depend on it in deserialize()
+            debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
+            Ok(cursor.position())
+        }
         Err(_e) => {
             // We know this was an "end of slice" error
             Err(())
-- 
2.43.0


From 92918086dbf8e3516d53deec3f9f0cbb42a7412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:40 +0000
Subject: [PATCH 07/13] fix: default worker must not forget requests it is
 already debouncing

---
 crates/cfg-noodle/src/worker_task.rs | 106 +++++++++++++++------------
 1 file changed, 59 insertions(+), 47 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 5427418..a9d4c71 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -1,7 +1,8 @@
 //! Default worker task implementation
 
 use core::fmt::Debug;
-use embassy_futures::select::{Either, Either3, select};
+use core::pin::pin;
+use embassy_futures::select::{Either, Either3, select, select3};
 use embassy_sync::{blocking_mutex::raw::NoopRawMutex, signal::Signal};
 use embassy_time::Duration;
 use mutex_traits::ScopedRawMutex;
@@ -64,59 +65,66 @@ pub async fn default_worker_task<
         let mut first_gc_done = false;
         let needs_gc: Signal<NoopRawMutex, Duration> = Signal::new();
 
-        // Wait for either the needs_read or needs_write to be signaled
-        loop {
-            let read_fut = async {
-                // Wait for needs_read to be signaled once
-                debug!("worker_task waiting for needs_read signal");
-                list.needs_read().await;
-
-                // Run debounce loop that breaks when needs_read hasn't been signaled
-                // for more than 100ms
-                'debounce: loop {
-                    // Make sure we go 100ms with no changes
-                    debug!("Debounce needs_read with 100ms timeout");
-                    if embassy_time::with_timeout(Duration::from_millis(100), list.needs_read())
-                        .await
-                        .is_err()
-                    {
-                        // Error means timeout reached, so no more debouncing
-                        debug!("Timeout reached, stop debouncing needs_read");
-                        break 'debounce;
-                    }
+        let wait_read = || async {
+            // Wait for needs_read to be signaled once
+            debug!("worker_task waiting for needs_read signal");
+            list.needs_read().await;
+
+            // Run debounce loop that breaks when needs_read hasn't been signaled
+            // for more than 100ms
+            'debounce: loop {
+                // Make sure we go 100ms with no changes
+                debug!("Debounce needs_read with 100ms timeout");
+                if embassy_time::with_timeout(Duration::from_millis(100), list.needs_read())
+                    .await
+                    .is_err()
+                {
+                    // Error means timeout reached, so no more debouncing
+                    debug!("Timeout reached, stop debouncing needs_read");
+                    break 'debounce;
                 }
-            };
-            let write_fut = async {
-                // Wait for needs_read to be signaled once
-                debug!("worker_task waiting for needs_write signal");
-                list.needs_write().await;
-
-                // Run debounce loop that breaks when needs_write hasn't been signaled
-                // for more than 100ms
-                'debounce: loop {
-                    debug!("Debounce needs_write with 10s timeout");
-                    // Make sure we go 10s with no changes
-                    if embassy_time::with_timeout(Duration::from_secs(10), list.needs_write())
-                        .await
-                        .is_err()
-                    {
-                        // Error means timeout reached, so no more debouncing
-                        debug!("Timeout reached, stop debouncing needs_write");
-                        break 'debounce;
-                    }
+            }
+        };
+        let wait_write = || async {
+            // Wait for needs_read to be signaled once
+            debug!("worker_task waiting for needs_write signal");
+            list.needs_write().await;
+
+            // Run debounce loop that breaks when needs_write hasn't been signaled
+            // for more than 100ms
+            'debounce: loop {
+                debug!("Debounce needs_write with 10s timeout");
+                // Make sure we go 10s with no changes
+                if embassy_time::with_timeout(Duration::from_secs(10), list.needs_write())
+                    .await
+                    .is_err()
+                {
+                    // Error means timeout reached, so no more debouncing
+                    debug!("Timeout reached, stop debouncing needs_write");
+                    break 'debounce;
                 }
-            };
+            }
+        };
+        let wait_gc = || async {
+            let delay = needs_gc.wait().await;
+            debug!("Got needs_gc signal. Continuing after delay of {}", delay);
+            embassy_time::Timer::after(delay).await;
+        };
 
-            let gc_fut = async {
-                let delay = needs_gc.wait().await;
-                debug!("Got needs_gc signal. Continuing after delay of {}", delay);
-                embassy_time::Timer::after(delay).await;
-            };
+        // These futures have to outlive the iterations of the loop below: they have
+        // taken signals already while they are debouncing, so dropping the two that
+        // did not complete would lose these requests.
+        let mut read_fut = pin!(wait_read());
+        let mut write_fut = pin!(wait_write());
+        let mut gc_fut = pin!(wait_gc());
 
+        // Wait for either the needs_read or needs_write to be signaled
+        loop {
             info!("worker_task waiting for signals");
-            match embassy_futures::select::select3(read_fut, write_fut, gc_fut).await {
+            match select3(read_fut.as_mut(), write_fut.as_mut(), gc_fut.as_mut()).await {
                 // needs_read signaled
                 Either3::First(_) => {
+                    read_fut.set(wait_read());
                     info!("worker task got needs_read signal, processing reads");
 
                     match list.process_reads(&mut flash, buf).await {
@@ -138,6 +146,7 @@ pub async fn default_worker_task<
                 }
                 // needs_write signaled
                 Either3::Second(_) => {
+                    write_fut.set(wait_write());
                     info!("worker task got needs_write signal, first process_garbage then write");
 
                     match list.process_garbage(&mut flash, buf).await {
@@ -156,11 +165,14 @@ pub async fn default_worker_task<
                     }
                 }
                 Either3::Third(_) => {
+                    gc_fut.set(wait_gc());
                     info!("worker task got needs_gc signal, run process_garbage");
                     match list.process_garbage(&mut flash, buf).await {
                         Ok(rpt) => {
                             info!("process_garbage success: {:?}", rpt);
                             first_gc_done = true;
+                            // Drop requests made by reads in the meantime
+                            needs_gc.reset();
                         }
                         Err(e) => error!("Error in process_garbage: {:?}", e),
                     }
-- 
2.43.0


From 0683eaab1045c290c40b41137b07f60674d8c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:27 +0000
Subject: [PATCH 08/13] fix: default worker reads first when a flush asks for
 it

---
 crates/cfg-noodle/src/worker_task.rs | 81 +++++++++++++++++++---------
 1 file changed, 55 insertions(+), 26 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index a9d4c71..ad4cec6 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -59,6 +59,8 @@ pub async fn default_worker_task<
 ) where
     S::Error: Debug,
 {
+    let mut first_read_done = false;
+
     // Create one future for the waker signals so that we can `select` between this
     // future and the `stopper` future.
     let waker_future = async {
@@ -128,7 +130,10 @@ pub async fn default_worker_task<
                     info!("worker task got needs_read signal, processing reads");
 
                     match list.process_reads(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_reads success: {:?}", rpt),
+                        Ok(rpt) => {
+                            info!("process_reads success: {:?}", rpt);
+                            first_read_done = true;
+                        }
                         Err(e) => error!("Error in process_reads: {:?}", e),
                     }
 
@@ -147,16 +152,8 @@ pub async fn default_worker_task<
                 // needs_write signaled
                 Either3::Second(_) => {
                     write_fut.set(wait_write());
-                    info!("worker task got needs_write signal, first process_garbage then write");
-
-                    match list.process_garbage(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-                        Err(e) => error!("Error in process_garbage: {:?}", e),
-                    }
-                    match list.process_writes(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                        Err(e) => error!("Error in process_writes: {:?}", e),
-                    }
+                    info!("worker task got needs_write signal, processing writes");
+                    write_pending(list, &mut flash, buf, true).await;
 
                     info!("worker task finished process_writes, triggering process_garbage");
                     match list.process_garbage(&mut flash, buf).await {
@@ -188,25 +185,57 @@ pub async fn default_worker_task<
     let Either::Second(_) = select(waker_future, stopper).await;
 
     info!("stopper future completed, stopping worker task");
-    match list.process_writes(&mut flash, buf).await {
-        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-        Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
-            match list.process_garbage(&mut flash, buf).await {
-                Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-                Err(e) => error!("Error in process_garbage: {:?}", e),
+    write_pending(list, &mut flash, buf, first_read_done).await;
+
+    info!("worker task stopped!");
+}
+
+/// Write pending changes, doing whatever is required before that is possible.
+///
+/// A read is necessary if some node was attached but not read yet, or if an earlier operation
+/// failed or was cancelled. It is only done if `may_read` is set.
+async fn write_pending<R: ScopedRawMutex + Sync, S: NdlDataStorage, const KEPT_RECORDS: usize>(
+    list: &'static StorageList<R, KEPT_RECORDS>,
+    flash: &mut S,
+    buf: &mut [u8],
+    may_read: bool,
+) where
+    S::Error: Debug,
+{
+    loop {
+        match list.process_writes(flash, buf).await {
+            Ok(rpt) => {
+                info!("process_writes success: {:?}", rpt);
+                return;
             }
-            match list.process_writes(&mut flash, buf).await {
-                Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                Err(e) => error!("Error in process_writes: {:?}", e),
+            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) if may_read => {
+                match list.process_reads(flash, buf).await {
+                    Ok(rpt) => info!("process_reads success: {:?}", rpt),
+                    Err(e) => {
+                        error!("Error in process_reads: {:?}", e);
+                        return;
+                    }
+                }
+            }
+            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
+                warn!("closing worker without performing first read");
+                return;
+            }
+            Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
+                match list.process_garbage(flash, buf).await {
+                    Ok(rpt) => info!("process_garbage success: {:?}", rpt),
+                    Err(e) => {
+                        error!("Error in process_garbage: {:?}", e);
+                        return;
+                    }
+                }
+            }
+            Err(e) => {
+                error!("Error in process_writes: {:?}", e);
+                return;
             }
         }
-        Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
-            warn!("closing worker without performing first read");
-        }
-        Err(e) => error!("Error in process_writes: {:?}", e),
     }
-
-    info!("worker task stopped!");
 }
 
 /// A worker tasks that always reads no entries and ignores all writes
-- 
2.43.0


From 4de6acacd0e7a32cc6e520171a0e25b8ae81ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 09/13] fix: a larger scratch buffer must not let oversize
 items through

---
 crates/cfg-noodle/src/storage_list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index a7cf120..8bda83b 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -380,6 +380,10 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
         // the verification of the next attempt would find the stale record instead.
         inner.seq_state.needs_gc = true;
 
+        // A larger buffer must not make items pass that are too large for the storage
+        let limit = core::cmp::min(buf.len(), S::MAX_ELEM_SIZE);
+        let buf = &mut buf[..limit];
+
         // TODO: Retries have to be handled in the OUTER context, so we can
         // start over from the beginning.
         let rpt = inner.write_to_flash(buf, storage, next_seq).await?;
-- 
2.43.0


From deedc98af15e0c9f6628e50043cc1587b38c4d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:11 +0000
Subject: [PATCH 10/13] fix: split stored elements where the key's encoding
 ends

---
 crates/cfg-noodle/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/lib.rs b/crates/cfg-noodle/src/lib.rs
index 282ae98..17c5031 100644
--- a/crates/cfg-noodle/src/lib.rs
+++ b/crates/cfg-noodle/src/lib.rs
@@ -195,11 +195,12 @@ impl<'a> SerData<'a> {
     pub fn kv_pair(&self) -> Result<KvPair<'_>, Error> {
         let item = self.key_val();
 
-        let Ok(key) = minicbor::decode::<&str>(item) else {
+        // The value starts where the key really ends: its encoding may not be the shortest one
+        let mut decoder = minicbor::Decoder::new(item);
+        let Ok(key) = decoder.str() else {
             return Err(Error::Deserialization);
         };
-        let len = len_with(key, &mut ());
-        let Some(remain) = item.get(len..) else {
+        let Some(remain) = item.get(decoder.position()..) else {
             return Err(Error::Deserialization);
         };
         Ok(KvPair { key, body: remain })
-- 
2.43.0


From f38e008951053dd86c815dac3b474c470c0cccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:21 +0000
Subject: [PATCH 11/13] fix: a failed first read or collection must not use up
 the start-up collection

---
 crates/cfg-noodle/src/storage_list.rs | 5 +++++
 crates/cfg-noodle/src/worker_task.rs  | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 8bda83b..1aae0cc 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -619,6 +619,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
             .find(|item| unsafe { item.as_ref() }.key == key)
     }
 
+    /// Is it known what the storage contains?
+    pub(crate) fn initial_scan_completed(&self) -> bool {
+        self.seq_state.initial_scan_completed()
+    }
+
     /// Gets the highest seen item, performing an initial read if not yet performed
     ///
     /// Returns:
diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index ad4cec6..dfdc476 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -167,7 +167,9 @@ pub async fn default_worker_task<
                     match list.process_garbage(&mut flash, buf).await {
                         Ok(rpt) => {
                             info!("process_garbage success: {:?}", rpt);
-                            first_gc_done = true;
+                            // Without a completed read, it is not known what is garbage, and
+                            // nothing was collected: the next read will ask for it again.
+                            first_gc_done = list.inner.lock().await.initial_scan_completed();
                             // Drop requests made by reads in the meantime
                             needs_gc.reset();
                         }
-- 
2.43.0


From c8b26ae41104c6af85ebf54fcf4c247553c0498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:24 +0000
Subject: [PATCH 12/13] fix: default worker that is run again lost pending
 writes when stopped before its first read

---
 crates/cfg-noodle/src/storage_list.rs | 7 +++++++
 crates/cfg-noodle/src/worker_task.rs  | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 1aae0cc..c8ce08c 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -624,6 +624,13 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         self.seq_state.initial_scan_completed()
     }
 
+    /// Is there any value that was changed but not written to flash yet?
+    pub(crate) fn has_pending_writes(&self) -> bool {
+        self.list
+            .iter()
+            .any(|header| matches!(header.state.load(Ordering::Acquire), State::NeedsWrite))
+    }
+
     /// Gets the highest seen item, performing an initial read if not yet performed
     ///
     /// Returns:
diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index dfdc476..4174fcf 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -187,7 +187,9 @@ pub async fn default_worker_task<
     let Either::Second(_) = select(waker_future, stopper).await;
 
     info!("stopper future completed, stopping worker task");
-    write_pending(list, &mut flash, buf, first_read_done).await;
+    // Values that are pending may stem from an earlier run of the worker, which did the first read
+    let may_read = first_read_done || list.inner.lock().await.has_pending_writes();
+    write_pending(list, &mut flash, buf, may_read).await;
 
     info!("worker task stopped!");
 }
-- 
2.43.0


From b5375d24217bbf9d3491ddd25b8a3545bcc03fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:48 +0000
Subject: [PATCH 13/13] fix: attaches not served when the default worker was
 stopped were not served by its next run

---
 crates/cfg-noodle/src/storage_list.rs | 7 +++++++
 crates/cfg-noodle/src/worker_task.rs  | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index c8ce08c..2aa75a6 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -631,6 +631,13 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
             .any(|header| matches!(header.state.load(Ordering::Acquire), State::NeedsWrite))
     }
 
+    /// Is there any node that was attached but not read yet?
+    pub(crate) fn has_pending_reads(&self) -> bool {
+        self.list
+            .iter()
+            .any(|header| matches!(header.state.load(Ordering::Acquire), State::Initial))
+    }
+
     /// Gets the highest seen item, performing an initial read if not yet performed
     ///
     /// Returns:
diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 4174fcf..091bb52 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -190,6 +190,8 @@ pub async fn default_worker_task<
     // Values that are pending may stem from an earlier run of the worker, which did the first read
     let may_read = first_read_done || list.inner.lock().await.has_pending_writes();
     write_pending(list, &mut flash, buf, may_read).await;
+    // A read that was interrupted by the stopper may have filled some nodes already
+    list.reading_done.wake_all();
 
     info!("worker task stopped!");
 }
@@ -223,6 +225,10 @@ async fn write_pending<R: ScopedRawMutex + Sync, S: NdlDataStorage, const KEPT_R
             }
             Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
                 warn!("closing worker without performing first read");
+                // The request for it may have been taken already: leave it to the next run
+                if list.inner.lock().await.has_pending_reads() {
+                    list.needs_read.wake();
+                }
                 return;
             }
             Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
-- 
2.43.0

