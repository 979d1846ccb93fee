From 91866ecaed854a4bcf00fe6c67d9c3b042c65529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 01/23] fix: honour the NUM_CPUS hint in bd-rt::num_cpus

The hint was parsed and then dropped: the function cast itself (the fn item num_cpus) to usize and
returned its address, and a hint that is not a normal number was used after being reported as
ignored.
---
 bd-rt/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bd-rt/src/lib.rs b/bd-rt/src/lib.rs
index bb7a809..85db742 100644
--- a/bd-rt/src/lib.rs
+++ b/bd-rt/src/lib.rs
@@ -36,12 +36,11 @@ pub fn num_cpus() -> usize {
   if let Ok(num_cpus_env) = std::env::var("NUM_CPUS") {
     match num_cpus_env.parse::<f64>() {
       Ok(fractional_cpus) => {
-        if !fractional_cpus.is_normal() {
-          log::warn!(
-            "env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it"
-          );
+        if fractional_cpus.is_normal() {
+          #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+          return std::cmp::max(1, fractional_cpus as usize);
         }
-        return std::cmp::max(1, num_cpus as usize);
+        log::warn!("env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it");
       },
       Err(_) => {
         log::warn!("non-numeric value in `NUM_CPUS` environment variable; ignoring it");
-- 
2.43.0


From c060a35406e18780b7ff6eafdf6a94ba10331a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 02/23] fix: report stored data with a corrupted length prefix
 as undecodable instead of panicking

---
 bd-key-value/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-key-value/src/lib.rs b/bd-key-value/src/lib.rs
index 56c0ef3..9a61535 100644
--- a/bd-key-value/src/lib.rs
+++ b/bd-key-value/src/lib.rs
@@ -114,7 +114,7 @@ impl Store {
         let result = base64::engine::general_purpose::STANDARD.decode(base64);
         Ok(result.map_or_else(
           |e| anyhow::bail!("failed to decode base64 value: {:?}", e),
-          |bytes| match bincode::deserialize_from::<_, T>(&bytes[..]) {
+          |bytes| match bincode::deserialize::<T>(&bytes) {
             Ok(model) => Ok(Some(model)),
             Err(e) => anyhow::bail!("failed to deserialize model: {:?}", e),
           },
-- 
2.43.0


From b83d781065e4fe87283638c2c20cf5e094865168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 03/23] fix: replace the per-thread zlib decompressor after a
 corrupt frame

---
 bd-grpc-codec/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bd-grpc-codec/src/lib.rs b/bd-grpc-codec/src/lib.rs
index 1344e04..c3b91d9 100644
--- a/bd-grpc-codec/src/lib.rs
+++ b/bd-grpc-codec/src/lib.rs
@@ -395,8 +395,15 @@ impl<MessageType: Message> Decoder<MessageType> {
         // TODO(mattklein123): Using Decompress here directly should remove some copies that are
         // required by using the writer interface.
         DECOMPRESSOR.with_borrow_mut(|decompressor| {
-          decompressor.write_all(&compressed)?;
-          decompressor.reset(Vec::new())
+          let result = decompressor
+            .write_all(&compressed)
+            .and_then(|()| decompressor.reset(Vec::new()));
+          if result.is_err() {
+            // The decompressor is shared by every stream decoded on this thread. Once it has seen
+            // corrupt data it rejects everything that follows, so it must not be used again.
+            *decompressor = ZlibDecoder::new(Vec::new());
+          }
+          result
         })?
       },
     };
-- 
2.43.0


From ffbfd0b7f8ab02ab7d175c93ad873a7bd8f8526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 04/23] fix: don't override an existing binary field when a
 set-field transform disallows overriding

SetField::apply detected an existing field through field_value, which only sees
fields with text values. A field with a binary value was therefore replaced (and
its value lost) even though the transform's configuration doesn't allow it to
override existing fields. Check for the field's presence by name as well.
---
 bd-log-filter/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bd-log-filter/src/lib.rs b/bd-log-filter/src/lib.rs
index 3480d9c..4ab2ad0 100644
--- a/bd-log-filter/src/lib.rs
+++ b/bd-log-filter/src/lib.rs
@@ -275,7 +275,10 @@ impl SetField {
   }
 
   fn apply(&self, log: &mut Log) {
-    if !self.is_override_allowed && log.field_value(&self.field_name).is_some() {
+    // The check is by name as well as by value, as `field_value` doesn't see fields with binary values.
+    if !self.is_override_allowed
+      && (log.field_value(&self.field_name).is_some() || log.has_field(&self.field_name))
+    {
       // Return if a field with the desired field name already exists and the transform is not
       // allowed to override existing values.
       return;
@@ -397,6 +400,7 @@ fn set_field(fields: &mut LogFields, field: LogField) {
 
 trait FieldProvider {
   fn field_value(&self, key: &str) -> Option<Cow<'_, str>>;
+  fn has_field(&self, key: &str) -> bool;
 }
 
 impl FieldProvider for Log {
@@ -414,4 +418,12 @@ impl FieldProvider for Log {
         .map(Into::into),
     }
   }
+
+  fn has_field(&self, key: &str) -> bool {
+    self
+      .fields
+      .iter()
+      .chain(self.matching_fields.iter())
+      .any(|f| f.key == key)
+  }
 }
-- 
2.43.0


From 6a5f7f05994443d2db355d703a1a22c030def1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 05/23] fix: round a timestamp with a sub-second part up from a
 whole multiple in ceil

OffsetDateTimeExt::ceil compared only whole seconds with the interval, so a
timestamp within the second after a multiple (12:01:00.5 with an interval of one
minute) was returned as it is, which is neither a multiple of the interval nor
rounded up.
---
 bd-time/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bd-time/src/lib.rs b/bd-time/src/lib.rs
index 640e411..5ffa91d 100644
--- a/bd-time/src/lib.rs
+++ b/bd-time/src/lib.rs
@@ -78,7 +78,8 @@ impl OffsetDateTimeExt for OffsetDateTime {
 
     let unix_timestamp = self.unix_timestamp();
     let rem = unix_timestamp.rem_euclid(interval.whole_seconds());
-    if rem == 0 {
+    // The seconds alone don't tell: a timestamp with a sub-second part is past the multiple.
+    if rem == 0 && self.nanosecond() == 0 {
       return *self;
     }
 
-- 
2.43.0


From f76634426a4deb9e40ebf158cd1868a34a0f78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 06/23] fix: account for the traversals a stopped workflow run
 had before the log

Run::process_log reports no created nor completed traversals for a run that
exceeds one of its limits, even if some of its traversals forked or completed
while processing the same log. Workflow::process_log subtracted the number of
traversals left in the run afterwards, so the engine's traversals count drifted
from the actual one: the global limit could be exceeded, or never used in full.
---
 bd-workflows/src/workflow.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 9cf0d77..83890a8 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -102,6 +102,7 @@ impl Workflow {
     // starting at `index` in any given iteration of the loop.
     for index in (0 .. self.runs.len()).rev() {
       let run = &mut self.runs[index];
+      let initial_traversals_count = run.traversals_count();
       let run_result = run.process_log(config, log);
 
       result.incorporate_run_result(&run_result);
@@ -119,7 +120,7 @@ impl Workflow {
       let is_over_traversals_count_limit = *current_traversals_count > traversals_count_limit;
       let run_result_did_make_progress = run_result.did_make_progress();
 
-      match (run_result.state, is_over_traversals_count_limit) {
+      match (&run_result.state, is_over_traversals_count_limit) {
         // If after processing a given log by a workflow run we notice that we end up
         // over the limit of allowed traversals we remove the `run` which caused the
         // overflow.
@@ -135,7 +136,14 @@ impl Workflow {
             );
           }
 
-          let stopped_traversals_count = run.traversals_count();
+          // A stopped run reports no created nor completed traversals, even if some of them
+          // advanced before it was stopped. What has been counted for such a run so far are the
+          // traversals it had prior to processing the log.
+          let stopped_traversals_count = if matches!(run_result.state, RunState::Stopped) {
+            initial_traversals_count
+          } else {
+            run.traversals_count()
+          };
           result.stats.stopped_traversals_count += stopped_traversals_count;
           *current_traversals_count =
             current_traversals_count.saturating_sub(stopped_traversals_count);
-- 
2.43.0


From 0d6e317a5a598450ded1e89cd83e7e7cee6b234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:26 +0000
Subject: [PATCH 07/23] fix: a metric's last value is not lost when it is
 dropped during a snapshot

---
 bd-client-stats-store/src/lib.rs |  9 ++++++---
 bd-client-stats/src/stats.rs     | 16 ++++++++--------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/bd-client-stats-store/src/lib.rs b/bd-client-stats-store/src/lib.rs
index 877cfc2..69098c9 100644
--- a/bd-client-stats-store/src/lib.rs
+++ b/bd-client-stats-store/src/lib.rs
@@ -23,7 +23,7 @@ use sketches_rust::DDSketch;
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
-use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::atomic::{fence, AtomicU64, Ordering};
 use std::sync::Arc;
 use std::time::Instant;
 use tokio::sync::watch;
@@ -449,10 +449,13 @@ impl MetricData {
 
   #[must_use]
   pub fn multiple_references(&self) -> bool {
-    match self {
+    let multiple_references = match self {
       Self::Counter(counter) => counter.multiple_references(),
       Self::Histogram(histogram) => histogram.multiple_references(),
-    }
+    };
+    // If there is no other reference, what was recorded through dropped ones is visible from here.
+    fence(Ordering::Acquire);
+    multiple_references
   }
 }
 
diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index 597f1e9..f001dba 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -267,15 +267,15 @@ impl Flusher {
   fn snap_collector_to_snapshot(collector: &BoundedCollector, snapshot: &mut SnapshotHelper) {
     // During iteration if a metric has data, we retain it, since it is likely to be used again.
     // If there is no data we drop it if there are no outstanding references. This iteration
-    // occurs under the collector lock so it is serialized with respect to new fetches.
+    // occurs under the collector lock so it is serialized with respect to new fetches. The
+    // references must be looked at before the data is taken: the holder of the last reference can
+    // record a value and let go of the reference in between, and this value would be lost.
     collector.retain(|id, metric| {
-      metric.snap().map_or_else(
-        || metric.multiple_references(),
-        |metric| {
-          snapshot.add_metric(id.clone(), metric);
-          true
-        },
-      )
+      let multiple_references = metric.multiple_references();
+      metric.snap().map_or(multiple_references, |metric| {
+        snapshot.add_metric(id.clone(), metric);
+        true
+      })
     });
   }
 
-- 
2.43.0


From f110e361870f35cd55623798b85d4056fd9634b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 08/23] fix: a cursor consumer advances past corrupted records
 it dropped

---
 .../src/buffer/non_volatile_ring_buffer.rs    | 69 ++++++++++++++-----
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index f0cf69c..37d67a2 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -108,7 +108,7 @@ impl RingBufferProducer for ProducerImpl {
         .as_mut()
         .and_then(|c| match c {
           ConsumerType::Consumer(c) => c.clone(),
-          ConsumerType::CursorConsumer(c) => c.front().cloned(),
+          ConsumerType::CursorConsumer(c) => c.front().map(|r| r.range.clone()),
         });
 
       match read_reservation {
@@ -449,7 +449,7 @@ struct CursorConsumerImpl {
 impl CursorConsumerImpl {
   fn get_reservations<'a>(
     guard: &'a MutexGuard<'_, LockedData<ExtraLockedData>>,
-  ) -> &'a IntrusiveQueueWithFreeList<Range> {
+  ) -> &'a IntrusiveQueueWithFreeList<CursorReservation> {
     match guard.extra_locked_data.consumer.as_ref().unwrap() {
       ConsumerType::Consumer(_) => unreachable!(),
       ConsumerType::CursorConsumer(c) => c,
@@ -458,7 +458,7 @@ impl CursorConsumerImpl {
 
   fn get_reservations_mut<'a>(
     guard: &'a mut MutexGuard<'_, LockedData<ExtraLockedData>>,
-  ) -> &'a mut IntrusiveQueueWithFreeList<Range> {
+  ) -> &'a mut IntrusiveQueueWithFreeList<CursorReservation> {
     match guard.extra_locked_data.consumer.as_mut().unwrap() {
       ConsumerType::Consumer(_) => unreachable!(),
       ConsumerType::CursorConsumer(c) => c,
@@ -494,7 +494,10 @@ impl CursorConsumerImpl {
     {
       ConsumerType::Consumer(_) => unreachable!(),
       ConsumerType::CursorConsumer(c) => {
-        c.emplace_back(reservation.unwrap());
+        c.emplace_back(CursorReservation {
+          range: reservation.unwrap(),
+          corrupted: false,
+        });
       },
     }
 
@@ -576,16 +579,26 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
       ));
     }
 
-    let next_reservation = Self::get_reservations(&common_ring_buffer)
-      .front()
-      .unwrap()
-      .clone();
-    Self::get_reservations_mut(&mut common_ring_buffer).pop_front();
-    LockedData::finish_read_common(
-      &mut common_ring_buffer,
-      &parent.common_ring_buffer.conditions,
-      &next_reservation,
-    );
+    // Along with the record itself, advance past any corrupted records that were dropped after it.
+    loop {
+      let next_reservation = Self::get_reservations(&common_ring_buffer)
+        .front()
+        .unwrap()
+        .range
+        .clone();
+      Self::get_reservations_mut(&mut common_ring_buffer).pop_front();
+      LockedData::finish_read_common(
+        &mut common_ring_buffer,
+        &parent.common_ring_buffer.conditions,
+        &next_reservation,
+      );
+      if !Self::get_reservations(&common_ring_buffer)
+        .front()
+        .map_or(false, |r| r.corrupted)
+      {
+        break;
+      }
+    }
     write_header_crc32(&mut common_ring_buffer);
     parent.no_consumer_reservation_condition.notify_all();
     Ok(())
@@ -627,9 +640,16 @@ const FILE_HEADER_CURRENT_VERSION: u32 = 1;
 // ConsumerType
 //
 
+// A record the cursor has moved past. Corrupted records are not returned to the reader, but the read
+// index must still be advanced past them once all of the records before them have been advanced.
+struct CursorReservation {
+  range: Range,
+  corrupted: bool,
+}
+
 enum ConsumerType {
   Consumer(Option<Range>),
-  CursorConsumer(IntrusiveQueueWithFreeList<Range>),
+  CursorConsumer(IntrusiveQueueWithFreeList<CursorReservation>),
 }
 
 //
@@ -1113,9 +1133,22 @@ fn common_consumer_start_read<'a>(
 
         // What we do here depends on whether we are in cursor mode or not. If not in cursor mode
         // we need to finish the read so we advance past the record and can accept a new start
-        // read reservation. If we are in cursor mode, we can simply null out the reservation as
-        // it has not yet been committed to the reservation list.
-        if matches!(cursor, Cursor::No) {
+        // read reservation. If we are in cursor mode and there are previous reads that have not been
+        // advanced yet, we must wait for those before advancing past the record, so we leave it in
+        // the reservation list.
+        let mut finish_read = true;
+        if let Some(ConsumerType::CursorConsumer(c)) =
+          &mut common_ring_buffer.extra_locked_data.consumer
+        {
+          if !c.is_empty() {
+            c.emplace_back(CursorReservation {
+              range: reservation.clone().unwrap(),
+              corrupted: true,
+            });
+            finish_read = false;
+          }
+        }
+        if finish_read {
           LockedData::finish_read_common(
             common_ring_buffer,
             conditions,
-- 
2.43.0


From 391ba6470a188de302eff722d7e2f09554b0de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 09/23] fix: a cursor advance starts at the record that was
 read

---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index 37d67a2..b15cc96 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -587,6 +587,9 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
         .range
         .clone();
       Self::get_reservations_mut(&mut common_ring_buffer).pop_front();
+      // The read index can be behind the record if a reservation before it was never committed, as
+      // the cursor skips it if it had nothing left to read at the time of the next commit.
+      *common_ring_buffer.next_read_start() = Some(next_reservation.start);
       LockedData::finish_read_common(
         &mut common_ring_buffer,
         &parent.common_ring_buffer.conditions,
-- 
2.43.0


From b59b350116e5545394c10df78cb69c3e57db22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:12 +0000
Subject: [PATCH 10/23] fix: a record too large for the file does not stop the
 flush thread

---
 bd-buffer/src/buffer/aggregate_ring_buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bd-buffer/src/buffer/aggregate_ring_buffer.rs b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
index 6cde4c2..a038dc2 100644
--- a/bd-buffer/src/buffer/aggregate_ring_buffer.rs
+++ b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
@@ -91,6 +91,11 @@ impl SharedData {
           // reset processing.
           debug_assert_eq!(message, "pending total data loss reset");
         },
+        Err(Error::AbslStatus(AbslCode::InvalidArgument, ref message)) => {
+          // In this case we drop the write as the record is too large for the non-volatile buffer:
+          // with its crc32 it can need more space there than it did in RAM.
+          debug_assert_eq!(message, "reservation size invalid");
+        },
         Err(e) => {
           debug_assert!(self.shutdown_flush_thread.load(Ordering::Relaxed));
           debug_assert!(
-- 
2.43.0


From 900cab658b0346b15f86f316414f9585e8197c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 11/23] fix: a reservation's end that does not fit into 32 bits
 does not fit into the memory

---
 bd-buffer/src/buffer/common_ring_buffer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index 070b873..737e845 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -451,7 +451,10 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     let mut reservation_data = TempReservationData::default();
     let next_write_start = *self.next_write_start();
 
-    if next_write_start + write_size <= to_u32(self.memory.0.len()) {
+    if next_write_start
+      .checked_add(write_size)
+      .map_or(false, |end| end <= to_u32(self.memory.0.len()))
+    {
       // It fits in the remainder without wrapping.
       reservation_data.range.start = next_write_start;
       reservation_data.next_write_start = next_write_start + write_size;
-- 
2.43.0


From 519513e050600fbf6b2438d0e67ffe6bb447a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 12/23] fix: a dropped consumer wakes a writer that waits for
 its read

---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index b15cc96..eeb148a 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -433,6 +433,8 @@ impl Drop for ConsumerImpl {
         .lock()
         .extra_locked_data
         .consumer = None;
+      // A writer can be blocked on a read that will never be finished.
+      parent.no_consumer_reservation_condition.notify_all();
     }
   }
 }
@@ -617,6 +619,8 @@ impl Drop for CursorConsumerImpl {
         .lock()
         .extra_locked_data
         .consumer = None;
+      // A writer can be blocked on a read that will never be finished.
+      parent.no_consumer_reservation_condition.notify_all();
     }
   }
 }
-- 
2.43.0


From a41831d76c790851a2351f3100d34715464066f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 13/23] fix: an async cursor read waits instead of spinning
 when nothing is available

---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index eeb148a..f72c12f 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -533,7 +533,6 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
               "({}) read resulted in no entry, waiting for more data",
               parent.common_ring_buffer.locked_data.lock().name
             );
-            continue;
           },
           Err(e) => return Err(e),
         }
-- 
2.43.0


From 56fb7bbab9de257ec0874b45dea3ce154b3978db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 14/23] fix: a total data loss wakes blocked writers, which
 recompute where to write

---
 bd-buffer/src/buffer/common_ring_buffer.rs       | 2 ++
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index 737e845..b2c338e 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -804,6 +804,8 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
           debug_assert!(matches!(e, Error::AbslStatus(AbslCode::DataLoss, _)));
           // In this case we are fully corrupted, so reset the next read index to nothing to read.
           guard.on_total_data_loss();
+          // If there is a writer blocked on the records that were just dropped it can now proceed.
+          conditions.next_read_complete.notify_all();
         },
       }
     };
diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index f72c12f..221ca4c 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -167,6 +167,9 @@ impl RingBufferProducer for ProducerImpl {
       block,
     )?;
 
+    // If we blocked, a total data loss reset can have moved the next write start in the meantime.
+    let temp_reservation_data = common_ring_buffer.calculate_next_write_start(actual_size);
+
     // We delay all actual state changes to this point (other than moving next read start in the
     // previous stanza) because we don't want to make any state changes until we know for sure that
     // the reservation is not going to fail.
-- 
2.43.0


From fefc22f48e6ea15796e241d34a65f5b9550c95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 15/23] fix: a cursor stops at the oldest unfinished record
 instead of going around the buffer forever

---
 bd-buffer/src/buffer/common_ring_buffer.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index b2c338e..b07a3f4 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -316,6 +316,25 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
         "corrupted record size".to_string(),
       ));
     }
+
+    // The cursor is always ahead of the oldest record that has not been fully read yet. If a corrupted
+    // record size makes it skip the last record it would otherwise go around the buffer forever.
+    if matches!(cursor, Cursor::Yes) {
+      if let Some(next_read_start) = *self.next_read_start() {
+        let nothing_outstanding = next_read_start == next_read_start_to_use
+          && !(self.has_read_reservation_cb)(&self.extra_locked_data);
+        if !nothing_outstanding
+          && (next_read_start_to_use
+            ..= next_read_start_to_use + self.extra_bytes_per_record + size - 1)
+            .contains(&next_read_start)
+        {
+          return Err(Error::AbslStatus(
+            AbslCode::DataLoss,
+            "corrupted record size".to_string(),
+          ));
+        }
+      }
+    }
     Ok(size)
   }
 
-- 
2.43.0


From 765271f46641af11642108389b200e67ff8697a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 16/23] fix: a finished record cannot be read again by a cursor
 after a corrupted size

---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index 221ca4c..bc9d80c 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -594,6 +594,9 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
       // The read index can be behind the record if a reservation before it was never committed, as
       // the cursor skips it if it had nothing left to read at the time of the next commit.
       *common_ring_buffer.next_read_start() = Some(next_reservation.start);
+      // Zero out extra data (CRCs, etc.) so that this record cannot be read again if we land on it
+      // again somehow due to corruption.
+      common_ring_buffer.zero_extra_data(next_reservation.start);
       LockedData::finish_read_common(
         &mut common_ring_buffer,
         &parent.common_ring_buffer.conditions,
-- 
2.43.0


From 6324cdeba1a6a4f17bacb1ef7f98534b5352e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:00 +0000
Subject: [PATCH 17/23] fix: an unreadably large start counter discards the
 cached runtime instead of overflowing

---
 bd-runtime/src/runtime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-runtime/src/runtime.rs b/bd-runtime/src/runtime.rs
index d7735de..481453e 100644
--- a/bd-runtime/src/runtime.rs
+++ b/bd-runtime/src/runtime.rs
@@ -235,7 +235,7 @@ impl ConfigLoader {
     // attempt to clear the cache directory) and disable caching. We do this because being unable
     // to update the retry count may result in us getting stuck processing what we think is retry
     // 0 over and over again.
-    self.persist_cache_load_retry_count(retry_count + 1)?;
+    self.persist_cache_load_retry_count(retry_count.saturating_add(1))?;
 
     // TODO(snowp): Should we read this from runtime as well? It would make it possible for a bad
     // runtime config to accidentally set this really high, but right now this is not
-- 
2.43.0


From 9d511723e1ddbe2516dd50730ee3447a6dd32b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 18/23] fix: a flush action resolved after a configuration
 update no longer stays pending

---
 bd-workflows/src/engine.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 32bf67b..89c3ca4 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -460,7 +460,7 @@ impl WorkflowsEngine {
               self.on_log_upload_approved(action).await;
           },
           NegotiatorOutput::UploadRejected(action) => {
-            self.state.pending_actions.remove(&action);
+            self.remove_pending_action(&action.id);
             self.needs_state_persistence = true;
           }
         }
@@ -468,8 +468,18 @@ impl WorkflowsEngine {
     }
   }
 
+  /// Removes the pending action with a given ID. The action may have been standardized in response
+  /// to a config update since it was handed to the negotiator, so its other properties may differ
+  /// from the ones the negotiator reports back.
+  fn remove_pending_action(&mut self, action_id: &str) {
+    self
+      .state
+      .pending_actions
+      .retain(|action| action.id != action_id);
+  }
+
   async fn on_log_upload_approved(&mut self, action: PendingFlushBuffersAction) {
-    self.state.pending_actions.remove(&action);
+    self.remove_pending_action(&action.id);
 
     // If there is already a pending buffer flush we don't want to signal another one, as
     // this would do nothing but mess up our tracking of the in-flight flush.
-- 
2.43.0


From 585755199042b668d452db53c25325391229acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 19/23] fix: a corrupted length in the workflows state file
 discards the file instead of aborting

---
 bd-workflows/src/engine.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 89c3ca4..a6a2c28 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -42,6 +42,7 @@ use bd_runtime::runtime::workflows::{
 use bd_runtime::runtime::{ConfigLoader, DurationWatch};
 use bd_stats_common::labels;
 use bd_time::TimeDurationExt as _;
+use bincode::Options as _;
 use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
 use std::collections::{BTreeSet, HashMap};
@@ -984,9 +985,19 @@ impl StateStore {
 
   pub(self) fn load_state(&self) -> anyhow::Result<WorkflowsState> {
     let file = File::open(self.state_path.as_path())?;
+    // No length found in the file can be greater than the size of the file. Without the limit a
+    // corrupted length makes us allocate memory we may not have before discovering the corruption.
+    let limit = file.metadata()?.len();
     // Wrap file in buffer to deserialize efficiently in place
     let buf_reader = BufReader::new(file);
-    Ok(bincode::deserialize_from::<_, WorkflowsState>(buf_reader)?)
+    Ok(
+      // Except for the limit these are the options used by `bincode::serialize_into`.
+      bincode::options()
+        .with_fixint_encoding()
+        .allow_trailing_bytes()
+        .with_limit(limit)
+        .deserialize_from::<_, WorkflowsState>(buf_reader)?,
+    )
   }
 
   /// Stores states of the passed workflows if all pre-conditions are met.
-- 
2.43.0


From babe93bc670177282c53fe4b87319e4c4677b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 20/23] fix: persisted workflow state that does not fit the
 configuration is discarded

---
 bd-workflows/src/engine.rs   | 10 ++++++++++
 bd-workflows/src/workflow.rs | 25 +++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index a6a2c28..3617480 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -310,6 +310,16 @@ impl WorkflowsEngine {
     let workflows_and_configs = workflows.into_iter().map(|config| {
       let workflow = existing_workflow_ids_to_workflows
         .remove(config.id())
+        .filter(|workflow| {
+          let fits = workflow.fits_config(&config);
+          if !fits {
+            log::debug!(
+              "workflow={}: discarding cached state that does not fit workflow config",
+              workflow.id()
+            );
+          }
+          fits
+        })
         .map_or_else(
           // We have cache state for a given workflow ID.
           || Workflow::new(config.id().to_string()),
diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 83890a8..d36a030 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -73,6 +73,31 @@ impl Workflow {
     &self.runs
   }
 
+  /// Whether the workflow could have been produced by the provided config: it has no more runs than
+  /// the execution type allows for, and every traversal points at a state of the config and tracks
+  /// as many transitions as that state has. That may not be the case for a workflow restored from
+  /// disk, if the config has changed since the workflow was persisted.
+  #[must_use]
+  pub(crate) fn fits_config(&self, config: &Config) -> bool {
+    if matches!(config.execution(), Execution::Exclusive) {
+      let active_runs_count = self
+        .runs
+        .iter()
+        .filter(|run| !run.is_in_initial_state())
+        .count();
+      if self.runs.len() > 2 || active_runs_count > 1 {
+        return false;
+      }
+    }
+
+    self.runs.iter().flat_map(|run| &run.traversals).all(|t| {
+      config
+        .states()
+        .get(t.state_index)
+        .is_some_and(|state| state.transitions().len() == t.matched_logs_counts.len())
+    })
+  }
+
   pub(crate) fn id(&self) -> &str {
     &self.id
   }
-- 
2.43.0


From 1357a0fc726a116fe8988781783bb1112d56b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:01 +0000
Subject: [PATCH 21/23] fix: persisted workflow state with runs that are never
 persisted is discarded

---
 bd-workflows/src/workflow.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index d36a030..4d4111d 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -73,21 +73,20 @@ impl Workflow {
     &self.runs
   }
 
-  /// Whether the workflow could have been produced by the provided config: it has no more runs than
-  /// the execution type allows for, and every traversal points at a state of the config and tracks
-  /// as many transitions as that state has. That may not be the case for a workflow restored from
-  /// disk, if the config has changed since the workflow was persisted.
+  /// Whether the workflow could have been persisted while running with the provided config: none of
+  /// its runs is in an initial state as such runs are never persisted, it has no more runs than the
+  /// execution type allows for, and every traversal points at a state of the config and tracks as
+  /// many transitions as that state has. That may not be the case for a workflow restored from disk,
+  /// if the config has changed since the workflow was persisted.
   #[must_use]
   pub(crate) fn fits_config(&self, config: &Config) -> bool {
-    if matches!(config.execution(), Execution::Exclusive) {
-      let active_runs_count = self
-        .runs
-        .iter()
-        .filter(|run| !run.is_in_initial_state())
-        .count();
-      if self.runs.len() > 2 || active_runs_count > 1 {
-        return false;
-      }
+    // An exclusive workflow has at most one run that is not in an initial state.
+    if matches!(config.execution(), Execution::Exclusive) && self.runs.len() > 1 {
+      return false;
+    }
+
+    if self.runs.iter().any(Run::is_in_initial_state) {
+      return false;
     }
 
     self.runs.iter().flat_map(|run| &run.traversals).all(|t| {
-- 
2.43.0


From d9c271074353cd5fa364c7ee7ba59b035f25be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:46 +0000
Subject: [PATCH 22/23] fix: logs whose upload is canceled by a shutdown are
 marked as uploaded

---
 bd-logger/src/consumer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bd-logger/src/consumer.rs b/bd-logger/src/consumer.rs
index d265da8..4cc7504 100644
--- a/bd-logger/src/consumer.rs
+++ b/bd-logger/src/consumer.rs
@@ -9,7 +9,7 @@
 #[path = "./consumer_test.rs"]
 mod consumer_test;
 
-use crate::service::{self, UploadRequest};
+use crate::service::{self, UploadRequest, UploadResult};
 use anyhow::anyhow;
 use bd_api::upload::LogBatch;
 use bd_api::{DataUpload, TriggerUpload};
@@ -532,8 +532,15 @@ impl ContinuousBufferUploader {
 
     log::debug!("completed continuous upload with result: {:?}", result);
 
-    // Regardless of the outcome of the upload, advance the read cursor to mark the records as
-    // written.
+    // A canceled upload means that we are shutting down, i.e., the logs have been neither uploaded
+    // nor given up on. Stop consuming logs so that all of them are still in the buffer the next time
+    // we start.
+    if matches!(result, UploadResult::Canceled) {
+      anyhow::bail!("continuous upload canceled");
+    }
+
+    // Regardless of the outcome of a completed upload, advance the read cursor to mark the records
+    // as written.
     for _ in 0 .. logs_len {
       self.consumer.advance_read_cursor()?;
     }
-- 
2.43.0


From 8ade8f020b4a363883df387baab5b1d966176413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:51 +0000
Subject: [PATCH 23/23] fix: flushing a buffer that is not there ends all
 buffer flushing

---
 bd-buffer/src/ring_buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bd-buffer/src/ring_buffer.rs b/bd-buffer/src/ring_buffer.rs
index 6416c10..fa6493a 100644
--- a/bd-buffer/src/ring_buffer.rs
+++ b/bd-buffer/src/ring_buffer.rs
@@ -212,8 +212,9 @@ impl Manager {
           log::debug!("buffer_id={buffer_id} signaled to flush");
           buffer.flush();
         } else {
+          // The buffer might have been removed since the flush was requested. This must not prevent
+          // the remaining buffers from being flushed nor subsequent requests from being processed.
           log::debug!("buffer_id={buffer_id} signaled to flush not found");
-          return Ok(());
         }
       }
 
-- 
2.43.0

