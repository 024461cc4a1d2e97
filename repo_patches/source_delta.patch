From 4b468fa4b731cab1429ba94193f136f899aef25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 01/64] fix: reject stored values with corrupted length
 prefixes without allocating them

---
 bd-key-value/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bd-key-value/src/lib.rs b/bd-key-value/src/lib.rs
index 56c0ef3..4835a79 100644
--- a/bd-key-value/src/lib.rs
+++ b/bd-key-value/src/lib.rs
@@ -114,7 +114,9 @@ impl Store {
         let result = base64::engine::general_purpose::STANDARD.decode(base64);
         Ok(result.map_or_else(
           |e| anyhow::bail!("failed to decode base64 value: {:?}", e),
-          |bytes| match bincode::deserialize_from::<_, T>(&bytes[..]) {
+          // Deserialize from the slice and not through a reader: a reader allocates whatever a
+          // corrupted length prefix asks for before it notices that the data is not there.
+          |bytes| match bincode::deserialize::<T>(&bytes) {
             Ok(model) => Ok(Some(model)),
             Err(e) => anyhow::bail!("failed to deserialize model: {:?}", e),
           },
-- 
2.43.0


From 9eaae0c0e1465e70013e31903d761db495bc308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 02/64] fix: do not deadlock when the previous session is read
 in the session ID callback

---
 bd-session/src/fixed.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bd-session/src/fixed.rs b/bd-session/src/fixed.rs
index 6db72e0..9649618 100644
--- a/bd-session/src/fixed.rs
+++ b/bd-session/src/fixed.rs
@@ -151,6 +151,17 @@ impl Strategy {
   }
 
   pub fn previous_process_session_id(&self) -> Option<String> {
+    // The callback runs while the state lock is held, so waiting for the lock from within it would
+    // never end.
+    if self.is_callback_in_progress.get_or_default().get() {
+      warn_every!(
+        15.seconds(),
+        "cannot obtain previous process session ID from within 'generatedSessionID' {}",
+        "callback"
+      );
+      return None;
+    }
+
     self.state.lock().as_ref().map_or_else(
       || {
         self
-- 
2.43.0


From 928d53b2a7e68f6a9d75e1744ee016fe43577456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 03/64] fix: size the worker pool by the NUM_CPUS hint and not
 by a function's address

---
 bd-rt/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bd-rt/src/lib.rs b/bd-rt/src/lib.rs
index bb7a809..62710bc 100644
--- a/bd-rt/src/lib.rs
+++ b/bd-rt/src/lib.rs
@@ -36,12 +36,11 @@ pub fn num_cpus() -> usize {
   if let Ok(num_cpus_env) = std::env::var("NUM_CPUS") {
     match num_cpus_env.parse::<f64>() {
       Ok(fractional_cpus) => {
-        if !fractional_cpus.is_normal() {
-          log::warn!(
-            "env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it"
-          );
+        if fractional_cpus.is_normal() {
+          #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+          return (fractional_cpus as usize).clamp(1, MAX_RT_THREADPOOL_SIZE);
         }
-        return std::cmp::max(1, num_cpus as usize);
+        log::warn!("env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it");
       },
       Err(_) => {
         log::warn!("non-numeric value in `NUM_CPUS` environment variable; ignoring it");
-- 
2.43.0


From 3a9806d482f842de82d081a1f5469b7841472f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 04/64] fix: update the maximum log level together with the
 filter when loggers are swapped

---
 bd-log/src/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/bd-log/src/lib.rs b/bd-log/src/lib.rs
index cded8e6..8aa2c33 100644
--- a/bd-log/src/lib.rs
+++ b/bd-log/src/lib.rs
@@ -71,13 +71,10 @@ impl SwapLogger {
 
   // Swap in a new logger with the provided RUST_LOG string.
   pub fn swap(new_rust_log: &str) -> anyhow::Result<()> {
-    Self::get()
-      .handle
-      .lock()
-      .unwrap()
-      .as_mut()
-      .unwrap()
-      .reload(new_rust_log)?;
+    // Held until the maximum level is updated, so that of two concurrent swaps the later one
+    // decides both the filter and the level.
+    let mut handle = Self::get().handle.lock().unwrap();
+    handle.as_mut().unwrap().reload(new_rust_log)?;
 
     // During init the log level is set based on the initial RUST_LOG value. We need to manually
     // update it each time we reload the config as tracing_subscriber does not do this for us.
-- 
2.43.0


From 4522e221b828859367e30158542528307613f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 05/64] fix: runtime config: reload the watched file after the
 notification queue overflowed

---
 bd-runtime-config/src/loader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bd-runtime-config/src/loader.rs b/bd-runtime-config/src/loader.rs
index ac15aff..389b25f 100644
--- a/bd-runtime-config/src/loader.rs
+++ b/bd-runtime-config/src/loader.rs
@@ -270,6 +270,8 @@ impl<ConfigType: Send + Sync + 'static + ?Sized> WatchedFileLoader<ConfigType> {
           log::debug!("got event: {:?}", event);
           match event.kind {
             EventKind::Modify(ModifyKind::Name(mode)) if mode == Self::rename_mode() => {},
+            // Events were lost, and a rename may have been among them.
+            _ if event.need_rescan() => {},
             _ => continue,
           }
 
-- 
2.43.0


From fb16b1ecaa95f2ebf8be2417f5df0ad40f19da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 06/64] fix: ring buffer: do not move the read position wrongly
 when cursor reads skip corrupted records

---
 bd-buffer/src/buffer/common_ring_buffer.rs    | 25 +++++++++++++++++++
 .../src/buffer/non_volatile_ring_buffer.rs    | 15 +++++++++++
 2 files changed, 40 insertions(+)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index 070b873..125a3f3 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -631,6 +631,26 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     }
   }
 
+  // Drop everything before the oldest cursor read that is not finished yet, or before the cursor if
+  // there is no such read. Records that are skipped due to corruption are never handed out and thus
+  // never finished, so they are dropped along with the reads around them.
+  pub fn drop_skipped_cursor_reads(
+    &mut self,
+    conditions: &Conditions,
+    oldest_unfinished_read_start: Option<u32>,
+  ) {
+    let new_read_start = oldest_unfinished_read_start.or(self.next_cursor_read_start);
+    match (*self.next_read_start(), new_read_start) {
+      (_, None) => *self.committed_write_start() = None,
+      (Some(old_read_start), Some(new_read_start)) if new_read_start < old_read_start => {
+        *self.last_write_end_before_wrap() = None;
+      },
+      _ => {},
+    }
+    *self.next_read_start() = new_read_start;
+    conditions.next_read_complete.notify_all();
+  }
+
   // Common handling for finishing a read.
   pub fn finish_read_common(
     guard: &mut MutexGuard<'_, Self>,
@@ -666,6 +686,11 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     guard.maybe_do_total_data_loss_reset();
   }
 
+  // Return whether there are reads that have been started and not finished.
+  pub fn has_read_reservation(&self) -> bool {
+    (self.has_read_reservation_cb)(&self.extra_locked_data)
+  }
+
   // Finish a total data loss reset if there are no outstanding readers/writers.
   pub fn maybe_do_total_data_loss_reset(&mut self) {
     if !self.pending_total_data_loss_reset {
diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index f0cf69c..3bb9ee3 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -581,11 +581,22 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
       .unwrap()
       .clone();
     Self::get_reservations_mut(&mut common_ring_buffer).pop_front();
+    common_ring_buffer.drop_skipped_cursor_reads(
+      &parent.common_ring_buffer.conditions,
+      Some(next_reservation.start),
+    );
     LockedData::finish_read_common(
       &mut common_ring_buffer,
       &parent.common_ring_buffer.conditions,
       &next_reservation,
     );
+    let oldest_unfinished_read_start = Self::get_reservations(&common_ring_buffer)
+      .front()
+      .map(|r| r.start);
+    common_ring_buffer.drop_skipped_cursor_reads(
+      &parent.common_ring_buffer.conditions,
+      oldest_unfinished_read_start,
+    );
     write_header_crc32(&mut common_ring_buffer);
     parent.no_consumer_reservation_condition.notify_all();
     Ok(())
@@ -1122,6 +1133,10 @@ fn common_consumer_start_read<'a>(
             reservation.as_ref().unwrap(),
           );
           write_header_crc32(common_ring_buffer);
+        } else if !common_ring_buffer.has_read_reservation() {
+          // Without outstanding reads there is no later finish that drops this record.
+          common_ring_buffer.drop_skipped_cursor_reads(conditions, None);
+          write_header_crc32(common_ring_buffer);
         }
 
         *reservation = None;
-- 
2.43.0


From 32f963e2a0e05b8fe8d98b5eb444a37d00a951c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 07/64] fix: ring buffer: report data loss when a record size
 leads out of the unread records

---
 bd-buffer/src/buffer/common_ring_buffer.rs | 25 ++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index 125a3f3..c4c2307 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -316,6 +316,31 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
         "corrupted record size".to_string(),
       ));
     }
+
+    // A record before the last committed record has to end where that record starts at the latest,
+    // and a record that is yet to be followed by a wrap has to end where the data before the wrap
+    // ends at the latest. If it does not, following the size would lead out of the unread records
+    // and into data that was already read, possibly over and over.
+    let next_read_end = next_read_start_to_use + self.extra_bytes_per_record + size;
+    let (Some(committed_write_start), last_write_end_before_wrap) = (
+      *self.committed_write_start(),
+      *self.last_write_end_before_wrap(),
+    ) else {
+      return Ok(size);
+    };
+    let past_unread_records = match next_read_start_to_use.cmp(&committed_write_start) {
+      std::cmp::Ordering::Less => next_read_end > committed_write_start,
+      std::cmp::Ordering::Equal => false,
+      std::cmp::Ordering::Greater => {
+        last_write_end_before_wrap.map_or(true, |end| next_read_end - 1 > end)
+      },
+    };
+    if past_unread_records {
+      return Err(Error::AbslStatus(
+        AbslCode::DataLoss,
+        "corrupted record size".to_string(),
+      ));
+    }
     Ok(size)
   }
 
-- 
2.43.0


From 717abff5a9d48f0c8ba8bf87963c3aba6d91a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 08/64] fix: ring buffer: wait instead of spinning when a
 cursor read finds no entry

---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index 3bb9ee3..6f0d5d9 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -528,7 +528,6 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
               "({}) read resulted in no entry, waiting for more data",
               parent.common_ring_buffer.locked_data.lock().name
             );
-            continue;
           },
           Err(e) => return Err(e),
         }
-- 
2.43.0


From a55367bc1206abffded7c643f3169cccd3352ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 09/64] fix: ring buffer: do not wait forever for a drain when
 its target is overwritten or on shutdown

---
 bd-buffer/src/buffer/common_ring_buffer.rs | 28 ++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index c4c2307..7f3bed1 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -462,6 +462,7 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
         let next_read_start = guard.next_read_start().unwrap();
         guard.zero_extra_data(next_read_start);
         guard.advance_next_read(next_read_actual_size, Cursor::No);
+        guard.on_drain_target_overwritten(conditions, next_read_start);
       } else {
         break;
       }
@@ -697,8 +698,6 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     }
     log::trace!("({}) finish read {}", guard.name, reservation);
 
-    // TODO(mattklein123): Handle the case in which the target committed write start gets
-    // overwritten.
     if let Some(wait_for_drain_data) = &guard.wait_for_drain_data {
       if wait_for_drain_data.committed_write_start.is_none()
         || wait_for_drain_data.committed_write_start.unwrap() == reservation.start
@@ -711,6 +710,25 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     guard.maybe_do_total_data_loss_reset();
   }
 
+  // If the record that a drain waits for gets overwritten, everything before it was overwritten as
+  // well or is being read, so all there is left to wait for is the completion of that read.
+  fn on_drain_target_overwritten(&mut self, conditions: &Conditions, overwritten_start: u32) {
+    let has_read_reservation = self.has_read_reservation();
+    let Some(wait_for_drain_data) = &mut self.wait_for_drain_data else {
+      return;
+    };
+    if wait_for_drain_data.committed_write_start != Some(overwritten_start) {
+      return;
+    }
+
+    if has_read_reservation {
+      wait_for_drain_data.committed_write_start = None;
+    } else {
+      self.wait_for_drain_data = None;
+      conditions.drain_complete.notify_all();
+    }
+  }
+
   // Return whether there are reads that have been started and not finished.
   pub fn has_read_reservation(&self) -> bool {
     (self.has_read_reservation_cb)(&self.extra_locked_data)
@@ -893,6 +911,11 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
 
   // Common handling for the waitForDrain() functionality.
   pub fn wait_for_drain(guard: &mut MutexGuard<'_, Self>, conditions: &Conditions) {
+    // After shutdown there may be nobody left to drain.
+    if guard.is_shutdown() {
+      return;
+    }
+
     if (guard.has_read_reservation_cb)(&guard.extra_locked_data)
       || guard.next_read_start().is_some()
     {
@@ -919,6 +942,7 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     guard.shutdown_lock = Some(guard.lock_common());
     conditions.data_available.notify_all();
     conditions.next_read_complete.notify_all();
+    conditions.drain_complete.notify_all();
   }
 
   // Common handling for lock().
-- 
2.43.0


From bf0757882ea4f5307d5d23addee3d4df218c4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 10/64] fix: ring buffer: keep the flush thread going when a
 record fits in RAM but not in the file

---
 bd-buffer/src/buffer/aggregate_ring_buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bd-buffer/src/buffer/aggregate_ring_buffer.rs b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
index 6cde4c2..da675e0 100644
--- a/bd-buffer/src/buffer/aggregate_ring_buffer.rs
+++ b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
@@ -91,6 +91,11 @@ impl SharedData {
           // reset processing.
           debug_assert_eq!(message, "pending total data loss reset");
         },
+        Err(Error::AbslStatus(AbslCode::InvalidArgument, _)) => {
+          // Records can take more space in the file than in RAM, so with (almost) equal sizes a
+          // record may fit only in the latter. There is no other choice than dropping it.
+          log::debug!("dropping record too large for the file");
+        },
         Err(e) => {
           debug_assert!(self.shutdown_flush_thread.load(Ordering::Relaxed));
           debug_assert!(
-- 
2.43.0


From b1f4a8f1d756ddaa6e5908044fa3ad3ae95a752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 11/64] fix: ring buffer: wake up a blocked producer when the
 consumer goes away in the middle of a read

---
 .../src/buffer/non_volatile_ring_buffer.rs    | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index 6f0d5d9..6eeb60f 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -427,12 +427,10 @@ impl RingBufferConsumer for ConsumerImpl {
 impl Drop for ConsumerImpl {
   fn drop(&mut self) {
     if let Some(parent) = self.buffer.upgrade() {
-      parent
-        .common_ring_buffer
-        .locked_data
-        .lock()
-        .extra_locked_data
-        .consumer = None;
+      let mut common_ring_buffer = parent.common_ring_buffer.locked_data.lock();
+      common_ring_buffer.extra_locked_data.consumer = None;
+      common_ring_buffer.maybe_do_total_data_loss_reset();
+      parent.no_consumer_reservation_condition.notify_all();
     }
   }
 }
@@ -605,12 +603,10 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
 impl Drop for CursorConsumerImpl {
   fn drop(&mut self) {
     if let Some(parent) = self.buffer.upgrade() {
-      parent
-        .common_ring_buffer
-        .locked_data
-        .lock()
-        .extra_locked_data
-        .consumer = None;
+      let mut common_ring_buffer = parent.common_ring_buffer.locked_data.lock();
+      common_ring_buffer.extra_locked_data.consumer = None;
+      common_ring_buffer.maybe_do_total_data_loss_reset();
+      parent.no_consumer_reservation_condition.notify_all();
     }
   }
 }
-- 
2.43.0


From 4bd8f986cd9d90d5b4d6082ac53134b6f6b05276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 12/64] fix: ring buffer: process further flushes after one
 that names an unknown buffer

---
 bd-buffer/src/ring_buffer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bd-buffer/src/ring_buffer.rs b/bd-buffer/src/ring_buffer.rs
index 6416c10..c5002e1 100644
--- a/bd-buffer/src/ring_buffer.rs
+++ b/bd-buffer/src/ring_buffer.rs
@@ -213,7 +213,6 @@ impl Manager {
           buffer.flush();
         } else {
           log::debug!("buffer_id={buffer_id} signaled to flush not found");
-          return Ok(());
         }
       }
 
-- 
2.43.0


From 68a53fc1a446608e12571a19ca32d2440bea84bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 13/64] fix: a filter that may not override a field leaves
 binary fields alone

---
 bd-log-filter/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bd-log-filter/src/lib.rs b/bd-log-filter/src/lib.rs
index 3480d9c..60d5f8c 100644
--- a/bd-log-filter/src/lib.rs
+++ b/bd-log-filter/src/lib.rs
@@ -275,7 +275,7 @@ impl SetField {
   }
 
   fn apply(&self, log: &mut Log) {
-    if !self.is_override_allowed && log.field_value(&self.field_name).is_some() {
+    if !self.is_override_allowed && log.has_field(&self.field_name) {
       // Return if a field with the desired field name already exists and the transform is not
       // allowed to override existing values.
       return;
@@ -396,10 +396,23 @@ fn set_field(fields: &mut LogFields, field: LogField) {
 }
 
 trait FieldProvider {
+  /// Whether there is such a field, whatever its value is.
+  fn has_field(&self, key: &str) -> bool;
   fn field_value(&self, key: &str) -> Option<Cow<'_, str>>;
 }
 
 impl FieldProvider for Log {
+  fn has_field(&self, key: &str) -> bool {
+    match key {
+      LOG_FIELD_NAME_MESSAGE | LOG_FIELD_NAME_LEVEL | LOG_FIELD_NAME_TYPE => true,
+      _ => self
+        .fields
+        .iter()
+        .chain(self.matching_fields.iter())
+        .any(|f| f.key == key),
+    }
+  }
+
   fn field_value(&self, key: &str) -> Option<Cow<'_, str>> {
     match key {
       LOG_FIELD_NAME_MESSAGE => self.message.as_str().map(Cow::Borrowed),
-- 
2.43.0


From cdba96f6499d86ec698ad78d26fdc5ed381bc3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 14/64] fix: rounding a time up also rounds up its fraction of
 a second

---
 bd-time/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-time/src/lib.rs b/bd-time/src/lib.rs
index 640e411..3bb94cc 100644
--- a/bd-time/src/lib.rs
+++ b/bd-time/src/lib.rs
@@ -78,7 +78,7 @@ impl OffsetDateTimeExt for OffsetDateTime {
 
     let unix_timestamp = self.unix_timestamp();
     let rem = unix_timestamp.rem_euclid(interval.whole_seconds());
-    if rem == 0 {
+    if rem == 0 && self.nanosecond() == 0 {
       return *self;
     }
 
-- 
2.43.0


From ce46fb354f970abc5d85ac51084a9cdc03c1215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 15/64] fix: a stream that fails to decompress does not affect
 other streams

---
 bd-grpc-codec/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bd-grpc-codec/src/lib.rs b/bd-grpc-codec/src/lib.rs
index 1344e04..a7393c1 100644
--- a/bd-grpc-codec/src/lib.rs
+++ b/bd-grpc-codec/src/lib.rs
@@ -395,8 +395,15 @@ impl<MessageType: Message> Decoder<MessageType> {
         // TODO(mattklein123): Using Decompress here directly should remove some copies that are
         // required by using the writer interface.
         DECOMPRESSOR.with_borrow_mut(|decompressor| {
-          decompressor.write_all(&compressed)?;
-          decompressor.reset(Vec::new())
+          let result = decompressor
+            .write_all(&compressed)
+            .and_then(|()| decompressor.reset(Vec::new()));
+          if result.is_err() {
+            // The decompressor is shared by all streams of this thread, so it must not keep the
+            // state of a stream that failed.
+            *decompressor = ZlibDecoder::new(Vec::new());
+          }
+          result
         })?
       },
     };
-- 
2.43.0


From fd22be059ddf27fd4e910e78505ffa3e68748d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 16/64] fix: stateful compression sends the whole message in
 its frame

---
 bd-grpc-codec/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bd-grpc-codec/src/lib.rs b/bd-grpc-codec/src/lib.rs
index a7393c1..caf342b 100644
--- a/bd-grpc-codec/src/lib.rs
+++ b/bd-grpc-codec/src/lib.rs
@@ -193,6 +193,11 @@ impl<MessageType: protobuf::Message> Encoder<MessageType> {
         compressor.get_mut().put_u32(0); // We will fill this in later.
         message.write_to_writer(compressor)?;
         compressor.flush()?;
+        // The encoder's flush gives up early if its internal buffer was full, in which case the end of
+        // the message would only be part of the next frame. A complete flush ends in a marker.
+        while !compressor.get_ref().ends_with(&[0, 0, 0xff, 0xff]) {
+          compressor.flush()?;
+        }
         Ok(std::mem::take(compressor.get_mut()))
       },
     }?;
-- 
2.43.0


From c2a5f9bfee7ae2f9dd13a8108cce0b99e6d64470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 17/64] fix: a metric recorded while stats are flushed is not
 dropped

---
 bd-client-stats/src/stats.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index 597f1e9..f0ea0e2 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -269,13 +269,14 @@ impl Flusher {
     // If there is no data we drop it if there are no outstanding references. This iteration
     // occurs under the collector lock so it is serialized with respect to new fetches.
     collector.retain(|id, metric| {
-      metric.snap().map_or_else(
-        || metric.multiple_references(),
-        |metric| {
-          snapshot.add_metric(id.clone(), metric);
-          true
-        },
-      )
+      // This must be determined before taking the data. Otherwise a recording done in between by an
+      // outstanding reference that is dropped right afterwards would be lost with the metric.
+      let multiple_references = metric.multiple_references();
+      std::sync::atomic::fence(std::sync::atomic::Ordering::Acquire);
+      metric.snap().map_or(multiple_references, |metric| {
+        snapshot.add_metric(id.clone(), metric);
+        true
+      })
     });
   }
 
-- 
2.43.0


From d1d874d9fce3f20ca9e2d088c549841a089558ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 18/64] fix: initializing the stats files is tried again after
 it failed

---
 bd-client-stats/src/file_manager.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index ce5958e..082af00 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -183,8 +183,9 @@ impl Inner {
     // entire directory as there is no reasonable way to manage the contents.
     match self {
       Self::Initialized(inner) => Ok(inner),
-      Self::NotInitialized(file_system) => {
-        let file_system = file_system.take().unwrap();
+      Self::NotInitialized(pending_file_system) => {
+        // Only taken once everything succeeded, so that initialization can be tried again.
+        let file_system = pending_file_system.as_ref().unwrap();
         let path = STATS_DIRECTORY.join(&*PENDING_AGGREGATION_INDEX_FILE);
         log::debug!("initializing pending aggregation index: {}", path.display());
         let index = match file_system
@@ -203,6 +204,7 @@ impl Inner {
           },
         };
 
+        let file_system = pending_file_system.take().unwrap();
         *self = Self::Initialized(InitializedInner {
           file_system,
           index: index.pending_files.into(),
-- 
2.43.0


From 1bc22190a07f91c3ad9362a5580c163e643577c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 19/64] fix: a limit of no stats files does not panic

---
 bd-client-stats/src/file_manager.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index 082af00..9671c28 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -255,7 +255,10 @@ impl FileManager {
     });
 
     if create_new_snapshot {
-      if self.max_aggregated_files.read() <= u32::try_from(initialized_inner.index.len()).unwrap() {
+      if !initialized_inner.index.is_empty()
+        && self.max_aggregated_files.read()
+          <= u32::try_from(initialized_inner.index.len()).unwrap()
+      {
         log::debug!("max files reached, popping oldest snapshot");
         initialized_inner.delete_oldest_snapshot().await?;
       }
-- 
2.43.0


From 23befbc0144c820ccce88467e7a75351ac640cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 20/64] fix: completing a stats upload whose file is gone does
 not panic

---
 bd-client-stats/src/file_manager.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index 9671c28..21769a8 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -417,14 +417,18 @@ impl FileManager {
     let mut inner = self.inner.lock().await;
     let initialized_inner = inner.get_initialized().await?;
 
-    if initialized_inner.index[0].name != uuid {
+    if initialized_inner
+      .index
+      .front()
+      .map_or(true, |file| file.name != uuid)
+    {
       // There is a race condition in which we could theoretically have reached max files, but
       // there is an upload in flight that comes back after we already popped the first entry.
       // We could handle this by having the max file code not pop inflight uploads, but that is
       // more complicated than just ignoring the response here.
       log::debug!(
-        "pending upload {} does not match expected {}",
-        initialized_inner.index[0].name,
+        "pending upload {:?} does not match expected {}",
+        initialized_inner.index.front().map(|file| &file.name),
         uuid
       );
       return Ok(());
-- 
2.43.0


From 438e344b6f6cd0ab536e05087df38d09f3c12439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 21/64] fix: a stored metric of an unsupported type does not
 panic

---
 bd-client-stats/src/stats.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index f0ea0e2..9e081c6 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -392,7 +392,11 @@ impl SnapshotHelper {
     let mut new_metrics = HashMap::new();
     for metric in metrics.metric {
       let id = Id::new(metric.name, metric.tags.into_iter().collect());
-      let metric = MetricData::from_proto(metric.data.unwrap()).unwrap();
+      let Some(metric) = metric.data.and_then(MetricData::from_proto) else {
+        // For example a type that is no longer supported, written by a previous version.
+        log::debug!("skipping unsupported metric in snapshot: {id:?}");
+        continue;
+      };
       let existing = new_metrics.insert(id, metric);
       debug_assert!(existing.is_none());
     }
-- 
2.43.0


From ef8c1e4501ea2215293d63d7b1e59106f35ae8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:58 +0000
Subject: [PATCH 22/64] fix: the index of stats files in memory does not run
 ahead of the one on disk

---
 bd-client-stats/src/file_manager.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index 21769a8..3ad83d9 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -238,7 +238,8 @@ impl FileManager {
     let mut inner = self.inner.lock().await;
     let initialized_inner = inner.get_initialized().await?;
 
-    let create_new_snapshot = initialized_inner.index.back_mut().map_or(true, |file| {
+    let mut close_existing_snapshot = false;
+    let create_new_snapshot = initialized_inner.index.back().map_or(true, |file| {
       if file.period_end.is_some() {
         log::debug!("snapshot is ready to upload, creating new snapshot");
         true
@@ -247,7 +248,7 @@ impl FileManager {
         <= self.time_provider.now()
       {
         log::debug!("snapshot is too old, creating new snapshot");
-        file.period_end = self.time_provider.now().into_proto();
+        close_existing_snapshot = true;
         true
       } else {
         false
@@ -269,8 +270,23 @@ impl FileManager {
         ..Default::default()
       };
       log::debug!("creating new snapshot in index: {}", pending_file.name);
+      if close_existing_snapshot {
+        if let Some(file) = initialized_inner.index.back_mut() {
+          file.period_end = self.time_provider.now().into_proto();
+        }
+      }
       initialized_inner.index.push_back(pending_file);
-      initialized_inner.write_index().await?;
+      if let Err(e) = initialized_inner.write_index().await {
+        // The index in memory must not run ahead of the one on disk, as otherwise what is written to
+        // the new file would be lost by a restart.
+        initialized_inner.index.pop_back();
+        if close_existing_snapshot {
+          if let Some(file) = initialized_inner.index.back_mut() {
+            file.period_end = None.into();
+          }
+        }
+        return Err(e);
+      }
     }
 
     // Read the file back or make a new one. We don't count an error reading the file or file
@@ -373,7 +389,11 @@ impl FileManager {
           initialized_inner.index[0].name
         );
         initialized_inner.index[0].period_end = self.time_provider.now().into_proto();
-        initialized_inner.write_index().await?;
+        if let Err(e) = initialized_inner.write_index().await {
+          // If the file was uploaded anyway, a restart would add to it after it was sent.
+          initialized_inner.index[0].period_end = None.into();
+          return Err(e);
+        }
       }
 
       let path = STATS_DIRECTORY.join(&initialized_inner.index[0].name);
-- 
2.43.0


From 578b1ec085e1a46a89eec9acd725b0276639c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 23/64] fix: a truncated compressed file is not read as a
 shorter message

---
 bd-client-common/src/file.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/bd-client-common/src/file.rs b/bd-client-common/src/file.rs
index ac6c5c6..19d87cf 100644
--- a/bd-client-common/src/file.rs
+++ b/bd-client-common/src/file.rs
@@ -6,8 +6,8 @@
 // https://polyformproject.org/wp-content/uploads/2020/06/PolyForm-Shield-1.0.0.txt
 
 use crate::zlib::DEFAULT_MOBILE_ZLIB_COMPRESSION_LEVEL;
-use flate2::read::{ZlibDecoder, ZlibEncoder};
-use flate2::Compression;
+use flate2::read::ZlibEncoder;
+use flate2::{Compression, Decompress, FlushDecompress, Status};
 use std::io::Read;
 
 pub fn write_compressed_protobuf<T: protobuf::Message>(message: &T) -> Vec<u8> {
@@ -33,9 +33,25 @@ pub fn read_compressed_protobuf<T: protobuf::Message>(
 
   // The files are likely not large enough to deal with streaming decompression on top of flate2.
   // For now we just read the entire thing and then decompress it in memory. We can consider
-  // streaming later.
-  let mut decoder = ZlibDecoder::new(compressed_bytes);
+  // streaming later. Note that the reader of flate2 takes the end of a truncated stream for its
+  // regular end without having seen the CRC, so this makes sure that the stream is complete.
+  let mut decompress = Decompress::new(true);
+  let mut bytes = Vec::with_capacity(compressed_bytes.len() * 2);
+  loop {
+    bytes.reserve(1024);
+    let (total_in, total_out) = (decompress.total_in(), decompress.total_out());
+    let remaining = &compressed_bytes[usize::try_from(total_in)? ..];
+    match decompress.decompress_vec(remaining, &mut bytes, FlushDecompress::None)? {
+      Status::StreamEnd => break,
+      Status::Ok | Status::BufError => {
+        if (total_in, total_out) == (decompress.total_in(), decompress.total_out()) {
+          anyhow::bail!("unexpected end of file");
+        }
+      },
+    }
+  }
+
   // In the future if/when we switch to using Bytes/Chars in the compiled proto it may be more
   // efficient to read out the uncompressed into Bytes and then parse from that.
-  Ok(T::parse_from_reader(&mut decoder)?)
+  Ok(T::parse_from_bytes(&bytes)?)
 }
-- 
2.43.0


From 67cc188822a08ed936fea4dab255df20be3ecc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 24/64] fix: an incomplete cached runtime is not taken for an
 empty one

---
 bd-runtime/src/runtime.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bd-runtime/src/runtime.rs b/bd-runtime/src/runtime.rs
index d7735de..5204c0d 100644
--- a/bd-runtime/src/runtime.rs
+++ b/bd-runtime/src/runtime.rs
@@ -252,8 +252,15 @@ impl ConfigLoader {
     // TODO(mattklein123): This tries to read the compressed format with CRC and if it fails tries
     // to fall back to the uncompressed format.
     let bytes = std::fs::read(&self.protobuf_file)?;
-    let runtime =
-      read_compressed_protobuf(&bytes).or_else(|_| RuntimeUpdate::parse_from_bytes(&bytes))?;
+    let runtime = read_compressed_protobuf(&bytes).or_else(|e| {
+      // A file that is empty or starts with a zlib header (which no uncompressed update does, as it
+      // would be a field that does not exist) is a partial or corrupted write of the compressed
+      // format, which must not be taken for an update that happens to have no known fields.
+      if matches!(bytes.first(), None | Some(0x78)) {
+        return Err(e);
+      }
+      Ok(RuntimeUpdate::parse_from_bytes(&bytes)?)
+    })?;
 
     self.update_snapshot_inner(&runtime);
 
-- 
2.43.0


From 776915684050e51acb09c6651cec43b0654d2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:41 +0000
Subject: [PATCH 25/64] fix: a retry count of the cached runtime that is at its
 maximum does not overflow

---
 bd-runtime/src/runtime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-runtime/src/runtime.rs b/bd-runtime/src/runtime.rs
index 5204c0d..95e0f68 100644
--- a/bd-runtime/src/runtime.rs
+++ b/bd-runtime/src/runtime.rs
@@ -235,7 +235,7 @@ impl ConfigLoader {
     // attempt to clear the cache directory) and disable caching. We do this because being unable
     // to update the retry count may result in us getting stuck processing what we think is retry
     // 0 over and over again.
-    self.persist_cache_load_retry_count(retry_count + 1)?;
+    self.persist_cache_load_retry_count(retry_count.saturating_add(1))?;
 
     // TODO(snowp): Should we read this from runtime as well? It would make it possible for a bad
     // runtime config to accidentally set this really high, but right now this is not
-- 
2.43.0


From e7835ea66aac991c8fa2bfac8965df34b4fb9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 26/64] fix: a ping interval that is too long for a deadline
 does not panic

---
 bd-api/src/api.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bd-api/src/api.rs b/bd-api/src/api.rs
index dc8377f..d2c1bad 100644
--- a/bd-api/src/api.rs
+++ b/bd-api/src/api.rs
@@ -235,10 +235,11 @@ impl StreamState {
   }
 
   fn maybe_schedule_ping(&mut self) {
-    self.ping_deadline = self.ping_interval.map(|ping_in| {
+    // An interval that is too long to be represented as a deadline will never elapse.
+    self.ping_deadline = self.ping_interval.and_then(|ping_in| {
       log::debug!("scheduling ping in {:?}", ping_in);
 
-      Instant::now() + ping_in
+      Instant::now().checked_add(ping_in)
     });
   }
 
-- 
2.43.0


From 85b232b1ecbe15ddf8b4b076eff644455ddce82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 27/64] fix: the reconnect delay does not exceed the maximum
 backoff interval

---
 bd-api/src/api.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bd-api/src/api.rs b/bd-api/src/api.rs
index d2c1bad..70f9fc2 100644
--- a/bd-api/src/api.rs
+++ b/bd-api/src/api.rs
@@ -555,8 +555,9 @@ impl Api {
   #[must_use]
   async fn do_reconnect_backoff(&mut self, backoff: &mut ExponentialBackoff<SystemClock>) -> bool {
     // We have no max timeout, hence this should always return a backoff value.
-    // Before moving to the next iteration, sleep according to the backoff strategy.
-    let reconnect_delay = backoff.next_backoff().unwrap();
+    // Before moving to the next iteration, sleep according to the backoff strategy. The randomization
+    // is applied on top of the maximum interval, so make sure that we never exceed it.
+    let reconnect_delay = backoff.next_backoff().unwrap().min(backoff.max_interval);
     log::debug!("reconnecting in {} ms", reconnect_delay.as_millis());
 
     // Pause execution until we are ready to reconnect, or the task is canceled.
-- 
2.43.0


From 4693bc7f3799cf84600eaed61408f3e1a9518274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 28/64] fix: a response of an unknown type does not panic

---
 bd-api/src/api.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bd-api/src/api.rs b/bd-api/src/api.rs
index 70f9fc2..bbb448d 100644
--- a/bd-api/src/api.rs
+++ b/bd-api/src/api.rs
@@ -884,9 +884,8 @@ impl Api {
             }
           }
         },
-        None => {
-          debug_assert!(false, "not handled");
-        },
+        // There is no response type, or it is one that was added after this client was built.
+        None => log::debug!("received unknown response: {}", response),
       }
     }
 
-- 
2.43.0


From f49e93468422d91bb92631ec12c708ee93328cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:48 +0000
Subject: [PATCH 29/64] fix: a negative ping interval does not panic

---
 bd-api/src/api.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bd-api/src/api.rs b/bd-api/src/api.rs
index bbb448d..0b1a397 100644
--- a/bd-api/src/api.rs
+++ b/bd-api/src/api.rs
@@ -65,7 +65,7 @@ use bd_proto::protos::logging::payload::data::Data_type;
 use bd_proto::protos::logging::payload::Data as ProtoData;
 use bd_runtime::runtime::{BoolWatch, DurationWatch, RuntimeManager};
 use bd_shutdown::ComponentShutdown;
-use bd_time::{OffsetDateTimeExt, TimeProvider, TimestampExt};
+use bd_time::{OffsetDateTimeExt, ProtoDurationExt, TimeProvider, TimestampExt};
 use parking_lot::RwLock;
 use protobuf::Message;
 use std::collections::HashMap;
@@ -224,11 +224,12 @@ impl StreamState {
     &mut self,
     stream_settings: Option<handshake_response::StreamSettings>,
   ) {
-    self.ping_interval = stream_settings.and_then(|mut settings| {
+    // An invalid (negative) interval is the same as none.
+    self.ping_interval = stream_settings.and_then(|settings| {
       settings
         .ping_interval
-        .take()
-        .and_then(|d| TryInto::try_into(d).ok())
+        .as_ref()
+        .and_then(ProtoDurationExt::to_std_duration_checked)
     });
 
     self.maybe_schedule_ping();
-- 
2.43.0


From b157cde9e44f8c8f0d3b806e0617a76d8ac93951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 30/64] fix: account for the traversals of a workflow run that
 is stopped while processing a log

---
 bd-workflows/src/workflow.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 9cf0d77..3607689 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -597,9 +597,9 @@ impl Run {
           return RunResult {
             state: RunState::Stopped,
             triggered_actions: vec![],
-            created_traversals_count: 0,
-            advanced_traversals_count: 0,
-            completed_traversals_count: 0,
+            created_traversals_count,
+            advanced_traversals_count,
+            completed_traversals_count,
             matched_logs_count: run_matched_logs_count,
           };
         }
@@ -621,9 +621,9 @@ impl Run {
                 return RunResult {
                   state: RunState::Stopped,
                   triggered_actions: vec![],
-                  created_traversals_count: 0,
-                  advanced_traversals_count: 0,
-                  completed_traversals_count: 0,
+                  created_traversals_count,
+                  advanced_traversals_count,
+                  completed_traversals_count,
                   matched_logs_count: run_matched_logs_count,
                 };
               }
-- 
2.43.0


From 4f1ee3c0b662fb7e48a7cd19420b5dfbcf691d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 31/64] fix: allow workflow transitions that lead back to the
 initial state

---
 bd-workflows/src/workflow.rs | 46 ++++--------------------------------
 1 file changed, 5 insertions(+), 41 deletions(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 3607689..0e52f74 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -313,28 +313,10 @@ impl Workflow {
   }
 
   /// Whether a given workflow has no runs or all of its runs are in an initial state.
-  /// While in theory the implementation of the method needs to iterate over the list of all
-  /// workflow's run in practise it's able to tell whether a workflow is an initial state
-  /// after checking at most two of its workflow runs.
-  /// That's because:
-  /// * if there are no runs workflow is an initial state.
-  /// * if there is one run the implementation needs to call `Run::is_initial` to check whether
-  ///   workflow is an initial state or not.
-  /// * if there is more than one run the first run cannot be in an initial state hence the whole
-  ///   workflow cannot be in an initial state. Each workflow can have at most one initial state run
-  ///   and initial state workflows can exists only at the end of `workflows` list of workflows.
+  /// There can be more than one run in an initial state as a transition can lead back to the initial
+  /// state.
   pub fn is_in_initial_state(&self) -> bool {
-    let is_in_initial_state = self.runs.iter().all(Run::is_in_initial_state);
-    debug_assert!(
-      if self.runs.len() > 1 {
-        !is_in_initial_state
-      } else {
-        true
-      },
-      "workflow with more than 1 run cannot be in an initial state"
-    );
-
-    is_in_initial_state
+    self.runs.iter().all(Run::is_in_initial_state)
   }
 
   pub(crate) fn remove_run(&mut self, index: usize) {
@@ -699,28 +681,10 @@ impl Run {
   }
 
   // Whether a given run is in its initial state meaning a state
-  // that's equal to its state at a time of creation. While in theory the
-  // implementation has to iterate over the list of all traversals to learn whether
-  // in practice it's able to tell whether a workflow is an initial state
-  // after checking at most two of its workflow traversals.
-  // That's because:
-  // * if there is no traversals then run is in an initial state.
-  // * if there is one traversals the implementation needs to call `Traversal::is_in_initial_state`
-  //   to learn whether the run is in an initial state or not.
-  // * if there is more than one traversal the first traversal in the list cannot be in an initial
-  //   state hence the whole run cannot be in an initial state. Each run can have at most one
-  //   traversal in initial state an initial state traversals are added to the end of `traversals`
-  //   list of traversals.
+  // that's equal to its state at a time of creation. There can be more than one traversal in an
+  // initial state as transitions can lead back to the initial state.
   fn is_in_initial_state(&self) -> bool {
     // TODO(Augustyniak): Consider optimizing by storing `is_initial` value.
-    debug_assert!(
-      self
-        .traversals
-        .iter()
-        .filter(|&traversal| Traversal::is_in_initial_state(traversal))
-        .count()
-        <= 1
-    );
     self.traversals.iter().all(Traversal::is_in_initial_state)
   }
 
-- 
2.43.0


From cc002ecbe00930dc9cd8963499b8136d60a981f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 32/64] fix: allow Sankey diagram actions without extracted
 values

---
 bd-workflows/src/workflow.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 0e52f74..addd141 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -887,17 +887,13 @@ impl Traversal {
           triggered_actions.push(TriggeredAction::EmitMetric(action));
         },
         Action::EmitSankey(action) => {
-          debug_assert!(sankey_states.is_some(), "sankey_states should be present");
-          let Some(sankey_states) = sankey_states else {
-            continue;
-          };
-
-          let Some(sankey_state) = sankey_states.remove(action.id()) else {
-            debug_assert!(
-              false,
-              "sankey_states for Sankey with {:?} ID should be present",
-              action.id()
-            );
+          // There is no state if none of the traversed transitions extracted a value for the Sankey,
+          // e.g., if logs did not have the field to extract the value from.
+          let Some(sankey_state) = sankey_states
+            .as_mut()
+            .and_then(|sankey_states| sankey_states.remove(action.id()))
+          else {
+            log::debug!("no values extracted for Sankey with {:?} ID", action.id());
             continue;
           };
 
-- 
2.43.0


From b13fbddaf90ea501fb9bf42a4ea51fd40e73aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 33/64] fix: finish pending flush buffers actions changed by a
 configuration update

---
 bd-workflows/src/engine.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 32bf67b..7fc3775 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -460,7 +460,7 @@ impl WorkflowsEngine {
               self.on_log_upload_approved(action).await;
           },
           NegotiatorOutput::UploadRejected(action) => {
-            self.state.pending_actions.remove(&action);
+            self.remove_pending_action(&action);
             self.needs_state_persistence = true;
           }
         }
@@ -468,8 +468,17 @@ impl WorkflowsEngine {
     }
   }
 
+  fn remove_pending_action(&mut self, action: &PendingFlushBuffersAction) {
+    // The buffers of the action in the list may have changed since its negotiation started due to
+    // a configuration update.
+    self
+      .state
+      .pending_actions
+      .retain(|pending_action| pending_action.id != action.id);
+  }
+
   async fn on_log_upload_approved(&mut self, action: PendingFlushBuffersAction) {
-    self.state.pending_actions.remove(&action);
+    self.remove_pending_action(&action);
 
     // If there is already a pending buffer flush we don't want to signal another one, as
     // this would do nothing but mess up our tracking of the in-flight flush.
-- 
2.43.0


From 63cb630989b8fc882280da26d545fb144bacf822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:33 +0000
Subject: [PATCH 34/64] fix: a corrupted workflows state file does not exhaust
 memory

---
 bd-workflows/src/engine.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 7fc3775..aa938dd 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -42,6 +42,7 @@ use bd_runtime::runtime::workflows::{
 use bd_runtime::runtime::{ConfigLoader, DurationWatch};
 use bd_stats_common::labels;
 use bd_time::TimeDurationExt as _;
+use bincode::Options as _;
 use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
 use std::collections::{BTreeSet, HashMap};
@@ -983,9 +984,18 @@ impl StateStore {
 
   pub(self) fn load_state(&self) -> anyhow::Result<WorkflowsState> {
     let file = File::open(self.state_path.as_path())?;
+    let file_size = file.metadata()?.len();
     // Wrap file in buffer to deserialize efficiently in place
     let buf_reader = BufReader::new(file);
-    Ok(bincode::deserialize_from::<_, WorkflowsState>(buf_reader)?)
+    // Same encoding as used by `bincode::serialize_into`, but a corrupted length does not make it
+    // allocate more memory than what the file can fill.
+    Ok(
+      bincode::DefaultOptions::new()
+        .with_fixint_encoding()
+        .allow_trailing_bytes()
+        .with_limit(file_size)
+        .deserialize_from::<_, WorkflowsState>(buf_reader)?,
+    )
   }
 
   /// Stores states of the passed workflows if all pre-conditions are met.
-- 
2.43.0


From 48bb813d95cc3972ad4e158a0299d8c7ec88c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 35/64] fix: discard persisted workflow runs that a changed
 configuration cannot process

---
 bd-workflows/src/engine.rs   | 12 ++++++++++++
 bd-workflows/src/workflow.rs | 18 ++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index aa938dd..431c11d 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -307,9 +307,16 @@ impl WorkflowsEngine {
           .collect()
       });
 
+    let mut has_discarded_workflows = false;
     let workflows_and_configs = workflows.into_iter().map(|config| {
       let workflow = existing_workflow_ids_to_workflows
         .remove(config.id())
+        // The config may have changed since the state of the workflow was persisted.
+        .filter(|workflow| {
+          let is_compatible = workflow.is_compatible_with(&config);
+          has_discarded_workflows |= !is_compatible;
+          is_compatible
+        })
         .map_or_else(
           // We have cache state for a given workflow ID.
           || Workflow::new(config.id().to_string()),
@@ -322,6 +329,11 @@ impl WorkflowsEngine {
     for (workflow, config) in workflows_and_configs {
       self.add_workflow(workflow, config);
     }
+
+    if has_discarded_workflows || !existing_workflow_ids_to_workflows.is_empty() {
+      // Mark the state as dirty so that the state of the discarded workflows is removed from disk.
+      self.needs_state_persistence = true;
+    }
   }
 
   fn add_workflow(&mut self, workflow: Workflow, config: Config) {
diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index addd141..47e4eeb 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -77,6 +77,17 @@ impl Workflow {
     &self.id
   }
 
+  /// Whether the persisted runs of the workflow, which may have been created for a different version
+  /// of a config, can be processed using a given config. Runs in an initial state are not persisted.
+  pub(crate) fn is_compatible_with(&self, config: &Config) -> bool {
+    (config.execution() == &Execution::Parallel || self.runs.len() <= 1)
+      && self
+        .runs
+        .iter()
+        .flat_map(|run| &run.traversals)
+        .all(|traversal| traversal.is_compatible_with(config))
+  }
+
   pub(crate) fn process_log<'a>(
     &mut self,
     config: &'a Config,
@@ -784,6 +795,13 @@ impl Traversal {
     }
   }
 
+  fn is_compatible_with(&self, config: &Config) -> bool {
+    config
+      .states()
+      .get(self.state_index)
+      .is_some_and(|state| state.transitions().len() == self.matched_logs_counts.len())
+  }
+
   fn process_log<'a>(&mut self, config: &'a Config, log: &LogRef<'_>) -> TraversalResult<'a> {
     let transitions = config.transitions_for_traversal(self);
 
-- 
2.43.0


From 42eb8982d7516354913f988ed01e950887cd3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 36/64] fix: do not underflow when the retry limit is lowered
 below the attempts made

---
 bd-logger/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-logger/src/service.rs b/bd-logger/src/service.rs
index 70dcd4f..3b23a16 100644
--- a/bd-logger/src/service.rs
+++ b/bd-logger/src/service.rs
@@ -222,7 +222,7 @@ impl RetryPolicy {
   }
 
   fn remaining(&self) -> u32 {
-    self.max_retries.read() - self.attempts
+    self.max_retries.read().saturating_sub(self.attempts)
   }
 }
 
-- 
2.43.0


From 42129ecb9be1858b1b3070ecb8b7f5f33836384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 37/64] fix: count batches as dropped for the retry limit only
 when they fail

---
 bd-logger/src/service.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/bd-logger/src/service.rs b/bd-logger/src/service.rs
index 3b23a16..54f596c 100644
--- a/bd-logger/src/service.rs
+++ b/bd-logger/src/service.rs
@@ -240,6 +240,11 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
       self.remaining()
     );
 
+    // Only failures are retried, so nothing else can run into the limit either.
+    if !matches!(result, Ok(UploadResult::Failure)) {
+      return None;
+    }
+
     if !self.should_retry() {
       self.retry_limit_exceeded.inc();
       self
@@ -254,16 +259,13 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
     let backoff_delay = backoff.next_backoff().unwrap();
     self.attempts += 1;
 
-    match result {
-      Ok(UploadResult::Failure) => Some(Box::pin(async move {
-        log::trace!(
-          "waiting for {}ms for next attempt",
-          backoff_delay.as_millis()
-        );
-        tokio::time::sleep(backoff_delay).await;
-      })),
-      _ => None,
-    }
+    Some(Box::pin(async move {
+      log::trace!(
+        "waiting for {}ms for next attempt",
+        backoff_delay.as_millis()
+      );
+      tokio::time::sleep(backoff_delay).await;
+    }))
   }
 
   fn clone_request(&mut self, req: &UploadRequest) -> Option<UploadRequest> {
-- 
2.43.0


From c1466c65fa9f2127bca38d18424c4c6d0ff98fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 38/64] fix: keep the logs of a continuous batch whose upload
 is canceled by the shutdown

---
 bd-logger/src/consumer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bd-logger/src/consumer.rs b/bd-logger/src/consumer.rs
index d265da8..9e100c2 100644
--- a/bd-logger/src/consumer.rs
+++ b/bd-logger/src/consumer.rs
@@ -9,7 +9,7 @@
 #[path = "./consumer_test.rs"]
 mod consumer_test;
 
-use crate::service::{self, UploadRequest};
+use crate::service::{self, UploadRequest, UploadResult};
 use anyhow::anyhow;
 use bd_api::upload::LogBatch;
 use bd_api::{DataUpload, TriggerUpload};
@@ -466,6 +466,9 @@ impl ContinuousBufferUploader {
       let flush_batch_timer = self.flush_batch_deadline.map(tokio::time::sleep_until);
 
       tokio::select! {
+        // Check for shutdown first: a batch that was abandoned due to it has not been marked as
+        // written, so nothing after it must be uploaded.
+        biased;
         () = self.shutdown.cancelled() => return Ok(()),
         entry = self.consumer.read() => {
             debug_assert!(entry.is_ok(), "consumer should not fail");
@@ -532,7 +535,14 @@ impl ContinuousBufferUploader {
 
     log::debug!("completed continuous upload with result: {:?}", result);
 
-    // Regardless of the outcome of the upload, advance the read cursor to mark the records as
+    // A canceled upload means that we are shutting down. The logs have not been sent, so leave them
+    // in the buffer to be uploaded after the next start, and don't read past them.
+    if matches!(result, UploadResult::Canceled) {
+      self.shutdown.cancelled().await;
+      return Ok(());
+    }
+
+    // Regardless of whether the upload succeeded, advance the read cursor to mark the records as
     // written.
     for _ in 0 .. logs_len {
       self.consumer.advance_read_cursor()?;
-- 
2.43.0


From fa2308025c1f7610cc3d00f7729150d04f479928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:11 +0000
Subject: [PATCH 39/64] fix: cancel trigger uploads on buffer removal and
 shutdown instead of blocking on them

---
 bd-logger/src/consumer.rs | 43 ++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/bd-logger/src/consumer.rs b/bd-logger/src/consumer.rs
index 9e100c2..b65e1c7 100644
--- a/bd-logger/src/consumer.rs
+++ b/bd-logger/src/consumer.rs
@@ -188,18 +188,28 @@ impl BufferUploadManager {
         let buffer_id_clone = buffer_id.clone();
         let internal_logger = self.logging.clone();
         let shutdown_trigger = ComponentShutdownTrigger::default();
-        let shutdown = shutdown_trigger.make_shutdown();
+        let mut shutdown = shutdown_trigger.make_shutdown();
         let (single_upload_complete_tx, single_upload_complete_rx) =
           tokio::sync::oneshot::channel();
         buffer_upload_completions.push(single_upload_complete_rx);
         tokio::task::spawn(
           async move {
+            // Bail on the upload if the buffer is removed or we are shutting down to avoid
+            // deadlocking the API task. What has not been read yet stays in the buffer.
+            let result = tokio::select! {
+              result = trigger_consumer.run() => result,
+              () = shutdown.cancelled() => Ok(None),
+            };
+
             // Handle the error here so that we can fire the complete message even on failure.
-            match trigger_consumer.run().await {
-              Ok(logs_count) => internal_logger.log_internal(&format!(
+            match result {
+              Ok(Some(logs_count)) => internal_logger.log_internal(&format!(
                 "completed trigger upload for buffer {buffer_id_clone:?}, uploaded logs count: \
                  {logs_count:?}",
               )),
+              Ok(None) => internal_logger.log_internal(&format!(
+                "canceled trigger upload for buffer {buffer_id_clone:?}"
+              )),
               Err(e) => {
                 internal_logger.log_internal(&format!(
                   "failed trigger upload for buffer {buffer_id_clone:?}: {e:?}"
@@ -210,8 +220,6 @@ impl BufferUploadManager {
 
             single_upload_complete_tx.send(()).unwrap();
 
-            // TODO(mattklein123): Should we pass this into the trigger consumer and actually
-            // try to bail quickly if it's taking a long time and we are trying to shutdown?
             drop(shutdown);
             upload_complete_tx
               .send(buffer_id_clone)
@@ -224,8 +232,7 @@ impl BufferUploadManager {
           )),
         );
 
-        // We never cancel the trigger uploads directly, so just reuse the top level shutdown
-        // token.
+        // The upload is canceled when the buffer is removed or we are shutting down.
         self
           .shutdowns
           .insert(buffer_id.to_string(), shutdown_trigger);
@@ -651,7 +658,8 @@ impl CompleteBufferUpload {
     }
   }
 
-  async fn run(mut self) -> anyhow::Result<i32> {
+  // Returns the number of logs uploaded, or None if the upload was canceled.
+  async fn run(mut self) -> anyhow::Result<Option<i32>> {
     log::debug!("starting trigger consumption task");
 
     // TODO(snowp): Consider tokio::task::yield_now to avoid starving other tasks if the batch size
@@ -688,24 +696,25 @@ impl CompleteBufferUpload {
         },
         // No more logs available, flush current batch if there are any logs.
         Err(Error::AbslStatus(AbslCode::Unavailable, _)) => {
-          if !self.batch_builder.logs.is_empty() {
-            self.flush_batch().await?;
+          if !self.batch_builder.logs.is_empty() && !self.flush_batch().await {
+            return Ok(None);
           }
 
           log::debug!("trigger upload complete, sent {} logs", total_logs);
-          return Ok(total_logs);
+          return Ok(Some(total_logs));
         },
         // Unexpected error, bubble up.
         Err(e) => return Err(e.into()),
       }
 
-      if self.batch_builder.limit_reached() {
-        self.flush_batch().await?;
+      if self.batch_builder.limit_reached() && !self.flush_batch().await {
+        return Ok(None);
       }
     }
   }
 
-  async fn flush_batch(&mut self) -> anyhow::Result<()> {
+  // Returns false if the upload was canceled, after which there is no point in reading more logs.
+  async fn flush_batch(&mut self) -> bool {
     let logs = self.batch_builder.take();
 
     log::debug!("flushing {} logs", logs.len());
@@ -724,12 +733,8 @@ impl CompleteBufferUpload {
       .await
       .unwrap_infallible();
 
-    // Note that we don't keep a shutdown handle for trigger uploads since we don't ever try to
-    // cancel them, so we don't anything extra here to avoid deadlocking like in the other two
-    // consumer tasks.
-
     log::debug!("completed trigger batch upload with result: {:?}", result);
 
-    Ok(())
+    !matches!(result, UploadResult::Canceled)
   }
 }
-- 
2.43.0


From d451a8b4c7344e7c24ff996eec539a667237154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 40/64] fix: write a log to its other buffers when one of them
 refuses it

---
 bd-logger/src/log_replay.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 6075c91..e37af29 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -8,7 +8,7 @@
 use crate::client_config::TailConfigurations;
 use crate::logging_state::{BufferProducers, ConfigUpdate, InitializedLoggingContextStats};
 use bd_api::{DataUpload, TriggerUpload};
-use bd_buffer::{AbslCode, BuffersWithAck, Error};
+use bd_buffer::BuffersWithAck;
 use bd_client_common::fb::make_log;
 use bd_client_stats::FlushTrigger;
 use bd_log_filter::FilterChain;
@@ -394,21 +394,15 @@ impl ProcessingPipeline {
           // TODO(snowp): For both logger and buffer lookup we end up doing a map lookup, which
           // seems less than ideal in the logging path. Look into ways to optimize this,
           // possibly via vector indices instead of string keys.
-          match BufferProducers::producer(&mut buffers.buffers, buffer)?.write(data) {
-            // If the buffer is locked, drop the error. This helps ensure that we are able to
-            // log to all buffers even if one of them is locked.
-            // TODO(snowp): Track how often logs are dropped due to locks.
-            // If the buffer is out of space, drop the error.
-            // TODO(mattklein123): Track this via stats.
-            e @ Err(Error::AbslStatus(
-              AbslCode::FailedPrecondition | AbslCode::ResourceExhausted,
-              _,
-            )) => {
-              log::debug!("failed to write log to buffer: {e:?}");
-              Ok(())
-            },
-            e => e,
-          }?;
+          let result = BufferProducers::producer(&mut buffers.buffers, buffer)
+            .and_then(|producer| Ok(producer.write(data)?));
+          // Drop the error (the buffer may be locked, out of space or too small for the log). This
+          // ensures that we are able to log to all other buffers even if we cannot log to one.
+          // TODO(snowp): Track how often logs are dropped due to locks.
+          // TODO(mattklein123): Track this via stats.
+          if let Err(e) = result {
+            log::debug!("failed to write log to buffer: {e:?}");
+          }
         }
         Ok(())
       },
-- 
2.43.0


From f40d9857b32c799c23b1a44e3c7dd09c84c1e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:49 +0000
Subject: [PATCH 41/64] fix: flush the buffers a blocking log was redirected to

---
 bd-logger/src/log_replay.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index e37af29..ee41890 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -271,6 +271,13 @@ impl ProcessingPipeline {
         result.triggered_flush_buffers_action_ids.iter().copied(),
       )?;
 
+      // The workflows engine may have redirected the log, keep track of where it ended up.
+      let mut written_to_buffers: BTreeSet<Cow<'_, str>> = result
+        .log_destination_buffer_ids
+        .iter()
+        .map(|id| id.to_string().into())
+        .collect();
+
       if let Some(extra_matching_buffer) = Self::process_flush_buffers_actions(
         &result.triggered_flush_buffers_action_ids,
         &mut self.buffer_producers,
@@ -278,10 +285,11 @@ impl ProcessingPipeline {
         &result.log_destination_buffer_ids,
         log,
       ) {
-        // We emitted a synthetic log. Add the buffer it was written to to the list of matching
-        // buffers.
-        matching_buffers.insert(extra_matching_buffer.into());
+        // We emitted a synthetic log. Add the buffer it was written to to the list of buffers
+        // that were written to.
+        written_to_buffers.insert(extra_matching_buffer.into());
       }
+      matching_buffers = written_to_buffers;
 
       // Check whether the caller is waiting for the log processing to complete. We call such logs
       // "blocking".
-- 
2.43.0


From d10b54fe5bd22526182d31178531fe9d6cb40ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 42/64] fix: a log that triggers a flush is part of it when
 only other trigger buffers hold it

---
 bd-logger/src/log_replay.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index ee41890..77494d2 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -436,12 +436,12 @@ impl ProcessingPipeline {
     let written_to_continuous_buffer =
       !written_to_buffers.is_disjoint(&buffers.continuous_buffer_ids);
 
-    // Indicates whether the log was written to any of the trigger buffers. Trigger buffers are
-    // uploaded only if there is a workflow action that instructs the system to flush them.
+    // Indicates whether the log was written to any of the flushed trigger buffers. Trigger buffers
+    // are uploaded only if there is a workflow action that instructs the system to flush them.
     // Therefore, we assume that the log ends up being uploaded only if it is directed to one of the
     // trigger buffers that is about to be flushed.
     let written_to_flushed_trigger_buffer =
-      !written_to_buffers.is_disjoint(&buffers.trigger_buffer_ids);
+      !written_to_buffers.is_disjoint(triggered_flushes_buffer_ids);
 
     let is_log_about_to_be_uploaded =
       written_to_continuous_buffer || written_to_flushed_trigger_buffer;
-- 
2.43.0


From 47a54d436c7849d5d90a41bf7eefff58fa93d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 43/64] fix: flush stats and shut down while a stats upload
 waits to be accepted

---
 bd-client-stats/src/stats.rs | 54 ++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index 9e081c6..834e10a 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -26,9 +26,11 @@ use bd_time::TimeDurationExt;
 #[cfg(test)]
 use stats_test::{TestHooks, TestHooksReceiver};
 use std::collections::HashMap;
+use std::future::Future;
+use std::pin::Pin;
 use std::sync::Arc;
 use time::Duration;
-use tokio::sync::{mpsc, oneshot, watch};
+use tokio::sync::{mpsc, watch};
 
 //
 // Ticker
@@ -82,6 +84,9 @@ impl Ticker for RuntimeWatchTicker {
 // Flusher
 //
 
+// An upload that is waiting to be accepted or to be responded to.
+type PendingUpload = Pin<Box<dyn Future<Output = UploadResponse> + Send>>;
+
 /// Responsible for periodically flushing the stats store to a locally aggregated file.
 pub struct Flusher {
   stats: Arc<Stats>,
@@ -129,7 +134,7 @@ impl Flusher {
   }
 
   pub async fn periodic_flush(mut self) {
-    let mut upload_rx = None;
+    let mut upload_rx: Option<PendingUpload> = None;
     loop {
       tokio::select! {
         Some(completion_tx) = self.flush_rx.recv() => {
@@ -152,9 +157,7 @@ impl Flusher {
           upload_rx = self.upload_from_disk(false).await;
         },
         upload_result = async { upload_rx.as_mut().unwrap().await }, if upload_rx.is_some() => {
-          upload_rx = self.process_pending_upload_completion(
-            upload_result.unwrap_or(UploadResponse { success: false, uuid: String::new() })
-          ).await;
+          upload_rx = self.process_pending_upload_completion(upload_result).await;
 
           #[cfg(test)]
           self.test_hooks.sender.upload_complete_tx.send(()).await.unwrap();
@@ -280,20 +283,17 @@ impl Flusher {
     });
   }
 
-  async fn upload_from_disk(
-    &self,
-    only_if_file_is_old: bool,
-  ) -> Option<oneshot::Receiver<UploadResponse>> {
+  async fn upload_from_disk(&self, only_if_file_is_old: bool) -> Option<PendingUpload> {
     async fn inner(
       flusher: &Flusher,
       only_if_file_is_old: bool,
-    ) -> anyhow::Result<Option<oneshot::Receiver<UploadResponse>>> {
+    ) -> anyhow::Result<Option<PendingUpload>> {
       if let Some(pending_upload) = flusher
         .file_manager
         .get_or_create_pending_upload(only_if_file_is_old)
         .await?
       {
-        return flusher.process_pending_upload(pending_upload).await;
+        return Ok(Some(flusher.process_pending_upload(pending_upload)));
       }
       Ok(None)
     }
@@ -313,12 +313,11 @@ impl Flusher {
     }
   }
 
-  // Attempts to upload the provided stats request. Upon success, the file containing the pending
-  // request will be deleted.
-  async fn process_pending_upload(
-    &self,
-    request: StatsUploadRequest,
-  ) -> anyhow::Result<Option<oneshot::Receiver<UploadResponse>>> {
+  // Attempts to upload the provided stats request, the result resolves once a response has been
+  // received. Upon success, the file containing the pending request will be deleted. Note that it
+  // can take arbitrarily long for the request to be accepted (e.g. if there is no connection), so
+  // the returned future has to be polled alongside all other work.
+  fn process_pending_upload(&self, request: StatsUploadRequest) -> PendingUpload {
     let (stats, response_rx) = TrackedStatsUploadRequest::new(request.upload_uuid.clone(), request);
 
     log::debug!(
@@ -333,20 +332,27 @@ impl Flusher {
     );
 
     let tracked_upload = DataUpload::StatsUploadRequest(stats);
+    let data_flush_tx = self.data_flush_tx.clone();
+    Box::pin(async move {
+      let failure = UploadResponse {
+        success: false,
+        uuid: String::new(),
+      };
 
-    // If this errors out the other end of the channel has closed, indicating that we are shutting
-    // down.
-    if self.data_flush_tx.send(tracked_upload).await.is_err() {
-      return Ok(None);
-    }
+      // If this errors out the other end of the channel has closed, indicating that we are shutting
+      // down.
+      if data_flush_tx.send(tracked_upload).await.is_err() {
+        return failure;
+      }
 
-    Ok(Some(response_rx))
+      response_rx.await.unwrap_or(failure)
+    })
   }
 
   async fn process_pending_upload_completion(
     &self,
     upload_response: UploadResponse,
-  ) -> Option<oneshot::Receiver<UploadResponse>> {
+  ) -> Option<PendingUpload> {
     log::debug!("stat upload attempt complete: {:?}", upload_response);
     if upload_response.success {
       // If this fails we are in a bad state and are likely going to end up double uploading, but
-- 
2.43.0


From b0666cf99fbe712838e338db66aede02a4c2ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:39 +0000
Subject: [PATCH 44/64] fix: make Logger::shutdown(false) shut the logger down

---
 bd-logger/src/logger.rs | 2 ++
 bd-shutdown/src/lib.rs  | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/bd-logger/src/logger.rs b/bd-logger/src/logger.rs
index f1ac9fd..2981cd0 100644
--- a/bd-logger/src/logger.rs
+++ b/bd-logger/src/logger.rs
@@ -489,6 +489,8 @@ impl Logger {
     if let Some(shutdown_trigger) = shutdown_trigger {
       if blocking {
         shutdown_trigger.shutdown_blocking();
+      } else {
+        shutdown_trigger.shutdown_nonblocking();
       }
     }
   }
diff --git a/bd-shutdown/src/lib.rs b/bd-shutdown/src/lib.rs
index 8ba23ec..8bf189c 100644
--- a/bd-shutdown/src/lib.rs
+++ b/bd-shutdown/src/lib.rs
@@ -105,6 +105,13 @@ impl ComponentShutdownTrigger {
     self.status_tx.closed().await;
   }
 
+  // Shutdown without waiting for the components to have dropped.
+  pub fn shutdown_nonblocking(self) {
+    self
+      .status_tx
+      .send_replace(ComponentStatus::PendingShutdown);
+  }
+
   // Shutdown and wait for all components to have been dropped. Used in sync context.
   pub fn shutdown_blocking(self) {
     self
-- 
2.43.0


From 0ac227c35e7fd8bf8fb60839d98ab7338a423383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 45/64] fix: a full buffer does not freeze the logger on a
 flush

---
 bd-buffer/src/buffer/aggregate_ring_buffer.rs | 13 +++++++++-
 bd-buffer/src/buffer/common_ring_buffer.rs    | 26 ++++++++++++++++---
 .../src/buffer/non_volatile_ring_buffer.rs    |  6 ++++-
 bd-buffer/src/buffer/volatile_ring_buffer.rs  | 17 +++++++++++-
 bd-buffer/src/ring_buffer.rs                  | 19 +++++++++++---
 5 files changed, 71 insertions(+), 10 deletions(-)

diff --git a/bd-buffer/src/buffer/aggregate_ring_buffer.rs b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
index da675e0..8641f9e 100644
--- a/bd-buffer/src/buffer/aggregate_ring_buffer.rs
+++ b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
@@ -35,6 +35,10 @@ use std::any::Any;
 use std::path::Path;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
+use std::time::Duration;
+
+// How long a flush waits for space in a file that is full and that may not be overwritten.
+const FLUSH_STALL_TIMEOUT: Duration = Duration::from_secs(1);
 
 //
 // SharedData
@@ -239,7 +243,14 @@ impl RingBuffer for RingBufferImpl {
   }
 
   fn flush(&self) {
-    self.shared_data.volatile_buffer.wait_for_drain();
+    match self.shared_data.allow_overwrite {
+      // There may be no space in the file until its data is uploaded, which can take forever.
+      AllowOverwrite::Block => self
+        .shared_data
+        .volatile_buffer
+        .wait_for_drain_or_stall(FLUSH_STALL_TIMEOUT),
+      AllowOverwrite::Yes => self.shared_data.volatile_buffer.wait_for_drain(),
+    }
   }
 
   fn shutdown(&self) {
diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index 7f3bed1..1cd6e1b 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -18,6 +18,7 @@ use std::fmt::Display;
 use std::ptr::NonNull;
 use std::sync::atomic::{AtomicU32, Ordering};
 use std::sync::Arc;
+use std::time::Duration;
 
 // Performing an intersection calculation (do a pair of start and size tuples overlap).
 pub const fn intersect(a: &Range, b: &Range) -> bool {
@@ -909,8 +910,13 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     })
   }
 
-  // Common handling for the waitForDrain() functionality.
-  pub fn wait_for_drain(guard: &mut MutexGuard<'_, Self>, conditions: &Conditions) {
+  // Common handling for the waitForDrain() functionality. If a stall timeout is given, the wait is
+  // given up once nothing has been read from the buffer for that long.
+  pub fn wait_for_drain(
+    guard: &mut MutexGuard<'_, Self>,
+    conditions: &Conditions,
+    stall_timeout: Option<Duration>,
+  ) {
     // After shutdown there may be nobody left to drain.
     if guard.is_shutdown() {
       return;
@@ -929,7 +935,21 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
       guard.wait_for_drain_data = Some(WaitForDrainData {
         committed_write_start: *guard.committed_write_start(),
       });
-      conditions.drain_complete.wait(guard);
+      let Some(stall_timeout) = stall_timeout else {
+        conditions.drain_complete.wait(guard);
+        return;
+      };
+      loop {
+        let read_start = *guard.next_read_start();
+        let result = conditions.drain_complete.wait_for(guard, stall_timeout);
+        if !result.timed_out() || guard.wait_for_drain_data.is_none() {
+          return;
+        }
+        if *guard.next_read_start() == read_start {
+          log::debug!("({}) giving up waiting for drain", guard.name);
+          return;
+        }
+      }
     }
   }
 
diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index 6eeb60f..8ce1192 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -967,7 +967,11 @@ impl RingBuffer for RingBufferImpl {
 
   fn wait_for_drain(&self) {
     let mut common_ring_buffer = self.common_ring_buffer.locked_data.lock();
-    LockedData::wait_for_drain(&mut common_ring_buffer, &self.common_ring_buffer.conditions);
+    LockedData::wait_for_drain(
+      &mut common_ring_buffer,
+      &self.common_ring_buffer.conditions,
+      None,
+    );
   }
 
   fn flush(&self) {}
diff --git a/bd-buffer/src/buffer/volatile_ring_buffer.rs b/bd-buffer/src/buffer/volatile_ring_buffer.rs
index 03505b0..df8ba1c 100644
--- a/bd-buffer/src/buffer/volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/volatile_ring_buffer.rs
@@ -36,6 +36,7 @@ use std::any::Any;
 use std::marker::PhantomPinned;
 use std::pin::Pin;
 use std::sync::{Arc, Weak};
+use std::time::Duration;
 
 //
 // Reservation
@@ -487,6 +488,16 @@ impl RingBufferImpl {
       no_reservations_condition: Condvar::default(),
     })
   }
+
+  // Wait for all data in the buffer to be read, or for nothing to be read for the given time.
+  pub fn wait_for_drain_or_stall(&self, stall_timeout: Duration) {
+    let mut common_ring_buffer = self.common_ring_buffer.locked_data.lock();
+    LockedData::wait_for_drain(
+      &mut common_ring_buffer,
+      &self.common_ring_buffer.conditions,
+      Some(stall_timeout),
+    );
+  }
 }
 
 impl RingBuffer for RingBufferImpl {
@@ -529,7 +540,11 @@ impl RingBuffer for RingBufferImpl {
 
   fn wait_for_drain(&self) {
     let mut common_ring_buffer = self.common_ring_buffer.locked_data.lock();
-    LockedData::wait_for_drain(&mut common_ring_buffer, &self.common_ring_buffer.conditions);
+    LockedData::wait_for_drain(
+      &mut common_ring_buffer,
+      &self.common_ring_buffer.conditions,
+      None,
+    );
   }
 
   fn flush(&self) {}
diff --git a/bd-buffer/src/ring_buffer.rs b/bd-buffer/src/ring_buffer.rs
index c5002e1..b1bd1a3 100644
--- a/bd-buffer/src/ring_buffer.rs
+++ b/bd-buffer/src/ring_buffer.rs
@@ -207,20 +207,31 @@ impl Manager {
         buffers_with_ack.buffers
       };
 
+      let mut buffers_to_flush = Vec::new();
       for buffer_id in buffers {
         if let Some((_, buffer)) = self.buffers.lock().0.get(&buffer_id).cloned() {
           log::debug!("buffer_id={buffer_id} signaled to flush");
-          buffer.flush();
+          buffers_to_flush.push(buffer);
         } else {
           log::debug!("buffer_id={buffer_id} signaled to flush not found");
         }
       }
 
-      if flush_all_buffers {
-        if let Some(stream_buffer) = &self.buffers.lock().1 {
+      let stream_buffer = flush_all_buffers
+        .then(|| self.buffers.lock().1.clone())
+        .flatten();
+
+      // A flush waits for space in the files of buffers that do not overwrite, which the uploads
+      // make, so it must not keep anything else from running.
+      tokio::task::spawn_blocking(move || {
+        for buffer in buffers_to_flush {
+          buffer.flush();
+        }
+        if let Some(stream_buffer) = stream_buffer {
           stream_buffer.flush();
         }
-      }
+      })
+      .await?;
 
       if let Some(completed_tx) = buffers_with_ack.completed_tx {
         completed_tx.send(());
-- 
2.43.0


From 21aacb41e3c89f0d1ac79b6e7dadb60a173938a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 46/64] fix: stats survive a kill while they are written

---
 bd-client-stats/src/file_manager.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index 3ad83d9..df44488 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -68,7 +68,12 @@ impl FileSystem for RealFileSystem {
   }
 
   async fn write_file(&self, path: &Path, data: &[u8]) -> anyhow::Result<()> {
-    Ok(tokio::fs::write(self.directory.join(path), data).await?)
+    // Replaced as a whole, as otherwise a process that dies while it writes would take the previous
+    // contents with it.
+    let path = self.directory.join(path);
+    let temp_path = path.with_extension("tmp");
+    tokio::fs::write(&temp_path, data).await?;
+    Ok(tokio::fs::rename(&temp_path, &path).await?)
   }
 
   async fn delete_file(&self, path: &Path) -> anyhow::Result<()> {
-- 
2.43.0


From 5b59108b2542e4217f9c748e7fc8b79701ec17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 47/64] fix: a process killed while it caches the configuration
 does not lose the previous one

---
 bd-logger/src/client_config.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 881121a..6a609b7 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -127,7 +127,12 @@ impl<A: ApplyConfig> Config<A> {
     // check if this is an out of disk issue without parsing the error message (not platform
     // independent) so it's tricky to avoid this being noisy. We may consider doing such
     // parsing on the server side.
-    if std::fs::write(&self.configuration_file, buffer).is_err() {
+    // The file is replaced as a whole, so that a process that dies here doesn't leave half of it.
+    let temp_file = self.configuration_file.with_extension("tmp");
+    if std::fs::write(&temp_file, buffer)
+      .and_then(|()| std::fs::rename(&temp_file, &self.configuration_file))
+      .is_err()
+    {
       self.config_cache_failure.inc();
     }
 
-- 
2.43.0


From ae18190be4f91753852ba18d00b4b52160bd0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:38 +0000
Subject: [PATCH 48/64] fix: a call that logs while the logger shuts down does
 not wait for ever

---
 bd-logger/src/memory_bound.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bd-logger/src/memory_bound.rs b/bd-logger/src/memory_bound.rs
index 2bd75d0..ad3564f 100644
--- a/bd-logger/src/memory_bound.rs
+++ b/bd-logger/src/memory_bound.rs
@@ -12,6 +12,7 @@ mod memory_bound_test;
 pub use crate::size::MemorySized;
 use bd_client_stats_store::{Counter, Scope};
 use bd_stats_common::labels;
+use futures_util::FutureExt;
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use tokio::sync::mpsc::error::TrySendError as TokioTrySendError;
@@ -200,6 +201,21 @@ impl<T: MemorySized> Receiver<T> {
   }
 }
 
+impl<T: MemorySized> Drop for Receiver<T> {
+  fn drop(&mut self) {
+    // Tokio drops the messages that are in the channel when its receiver is dropped, but not the
+    // ones whose sending has begun but has not completed at that point. These would stay alive for
+    // as long as there are senders, and with them the completion senders that callers wait for.
+    self.rx.close();
+    let mut drained = std::pin::pin!(tokio::task::unconstrained(async {
+      while self.rx.recv().await.is_some() {}
+    }));
+    while drained.as_mut().now_or_never().is_none() {
+      std::thread::yield_now();
+    }
+  }
+}
+
 //
 // SendCounters
 //
-- 
2.43.0


From 7fc84eb57afb67d28305ad1bc407460da56d57f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 49/64] fix: runtime survives a kill while it is cached

---
 bd-runtime/src/runtime.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bd-runtime/src/runtime.rs b/bd-runtime/src/runtime.rs
index 95e0f68..0e786d5 100644
--- a/bd-runtime/src/runtime.rs
+++ b/bd-runtime/src/runtime.rs
@@ -179,7 +179,7 @@ impl ConfigLoader {
   fn persist_cache_load_retry_count(&self, retry_count: u32) -> anyhow::Result<()> {
     // This could fail, but by being defensive when we read this we should ideally worst case just
     // fall back to not reading from cache.
-    std::fs::write(&self.retry_count_file, format!("{retry_count}").as_bytes())
+    Self::replace_file(&self.retry_count_file, format!("{retry_count}").as_bytes())
       .map_err(|e| anyhow!("an io error occurred: {e}"))
   }
 
@@ -369,7 +369,15 @@ impl ConfigLoader {
   }
 
   fn cache_update(&self, runtime: &RuntimeUpdate) {
-    let _ignored = std::fs::write(&self.protobuf_file, write_compressed_protobuf(runtime));
+    let _ignored = Self::replace_file(&self.protobuf_file, &write_compressed_protobuf(runtime));
+  }
+
+  // Replaces a file as a whole, so that a process that dies here doesn't take the previous contents
+  // with it.
+  fn replace_file(file: &Path, contents: &[u8]) -> std::io::Result<()> {
+    let temp_file = file.with_extension("tmp");
+    std::fs::write(&temp_file, contents)?;
+    std::fs::rename(&temp_file, file)
   }
 }
 
-- 
2.43.0


From 0107f5a3bc79ec2c9fb466203814a79a25e86330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:54 +0000
Subject: [PATCH 50/64] fix: a configuration with an invalid filter is refused
 before it changes the buffers

---
 bd-logger/src/client_config.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 6a609b7..a415e7e 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -254,6 +254,9 @@ impl ApplyConfig for LoggerUpdate {
       filters,
     } = configuration;
 
+    // A configuration that is refused must not have changed the buffers.
+    let buffer_selector = bd_matcher::buffer_selector::BufferSelector::new(&buffer)?;
+
     let maybe_stream_buffer = self
       .buffer_manager
       .update_from_config(&buffer, !bdtail.active_streams.is_empty())
@@ -282,7 +285,7 @@ impl ApplyConfig for LoggerUpdate {
       .config_update_tx
       .send(ConfigUpdate {
         buffer_producers: BufferProducers::new(&self.buffer_manager)?,
-        buffer_selector: bd_matcher::buffer_selector::BufferSelector::new(&buffer)?,
+        buffer_selector,
         // TODO(Augustyniak): Propagate the information about invalid workflows to server.
         workflows_configuration,
         tail_configs: TailConfigurations::new(
-- 
2.43.0


From efd422cfe540d27f747a46dff19b705435ec9b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:54 +0000
Subject: [PATCH 51/64] fix: the events listener is not started twice or
 stopped while not started

---
 bd-events/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bd-events/src/lib.rs b/bd-events/src/lib.rs
index 3147ee3..75cd4d0 100644
--- a/bd-events/src/lib.rs
+++ b/bd-events/src/lib.rs
@@ -39,9 +39,9 @@ pub trait ListenerTarget {
 pub struct Listener {
   target: Box<dyn ListenerTarget + Send + Sync>,
 
-  // Whether the events listener has seen at least one update to the value of the `is_enabled`
-  // flag.
-  has_seen_is_enabled_flag_update: bool,
+  // Whether the target was started and not stopped since. Updates of the flag that follow each other
+  // quickly are observed as one, possibly with the value that was observed before.
+  is_active: bool,
 
   is_enabled_flag: BoolWatch<ListenerEnabledFlag>,
 }
@@ -55,7 +55,7 @@ impl Listener {
 
     Self {
       target,
-      has_seen_is_enabled_flag_update: false,
+      is_active: false,
       is_enabled_flag,
     }
   }
@@ -75,16 +75,16 @@ impl Listener {
       tokio::select! {
         _ = self.is_enabled_flag.changed() => {
           let new_is_enabled = self.is_enabled_flag.read();
-          if new_is_enabled {
+          if new_is_enabled && !self.is_active {
             log::debug!("events listener start");
             self.target.start();
-          } else if self.has_seen_is_enabled_flag_update {
+          } else if !new_is_enabled && self.is_active {
             // Stop only if event listener was previously started.
             log::debug!("events listener stop");
             self.target.stop();
           }
 
-          self.has_seen_is_enabled_flag_update = true;
+          self.is_active = new_is_enabled;
         }
         () = &mut local_shutdown => {
           break;
-- 
2.43.0


From d35c9ca9669e9d4a95b508d95ffba825cebe23bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:07 +0000
Subject: [PATCH 52/64] fix: an interval of zero does not panic

---
 bd-resource-utilization/src/lib.rs |  2 ++
 bd-time/src/lib.rs                 | 11 ++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/bd-resource-utilization/src/lib.rs b/bd-resource-utilization/src/lib.rs
index ddd60a1..dd27754 100644
--- a/bd-resource-utilization/src/lib.rs
+++ b/bd-resource-utilization/src/lib.rs
@@ -72,6 +72,8 @@ impl Reporter {
   }
 
   fn create_interval(interval: Duration, fire_immediately: bool) -> tokio::time::Interval {
+    // Tokio's intervals panic if their period is zero, which the runtime may specify.
+    let interval = interval.max(Duration::from_millis(1));
     let mut interval = if fire_immediately {
       tokio::time::interval(interval)
     } else {
diff --git a/bd-time/src/lib.rs b/bd-time/src/lib.rs
index 3bb94cc..f31bcd5 100644
--- a/bd-time/src/lib.rs
+++ b/bd-time/src/lib.rs
@@ -118,6 +118,11 @@ pub trait TimeDurationExt {
   fn add_tokio_instant(self, instant: tokio::time::Instant) -> tokio::time::Instant;
 }
 
+/// The period of an interval of the given duration. Tokio's intervals panic if their period is zero.
+fn interval_period(duration: time::Duration) -> Duration {
+  duration.unsigned_abs().max(Duration::from_millis(1))
+}
+
 impl TimeDurationExt for time::Duration {
   fn advance(self) -> impl Future<Output = ()> {
     tokio::time::advance(self.unsigned_abs())
@@ -128,17 +133,17 @@ impl TimeDurationExt for time::Duration {
   }
 
   fn interval(self) -> Interval {
-    interval(self.unsigned_abs())
+    interval(interval_period(self))
   }
 
   fn interval_at(self) -> Interval {
-    interval_at(self.add_tokio_now(), self.unsigned_abs())
+    interval_at(self.add_tokio_now(), interval_period(self))
   }
 
   fn jittered_interval_at(self) -> Interval {
     let millis: u64 = self.whole_milliseconds().try_into().unwrap();
     let jittered = Duration::from_millis(thread_rng().gen_range(0 ..= millis));
-    interval_at(tokio::time::Instant::now() + jittered, self.unsigned_abs())
+    interval_at(tokio::time::Instant::now() + jittered, interval_period(self))
   }
 
   fn timeout<F: IntoFuture>(self, f: F) -> Timeout<F::IntoFuture> {
-- 
2.43.0


From 7c227d26c269f873f5449410ba43571f8fe5fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:28 +0000
Subject: [PATCH 53/64] fix: a reporter of unexpected errors may fail itself

---
 bd-client-common/src/error.rs | 46 ++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/bd-client-common/src/error.rs b/bd-client-common/src/error.rs
index ebe2869..dd8dd4d 100644
--- a/bd-client-common/src/error.rs
+++ b/bd-client-common/src/error.rs
@@ -198,37 +198,45 @@ impl UnexpectedErrorHandler {
     ERROR_HANDLER.lock().reporter = Arc::new(DefaultErrorReporter {});
   }
 
-  // Reports an unexpected error. The string will be forwarded to the reporter if one has been
-  // attached.
-  fn report(&mut self, message: &str, description: &str, details: impl FnOnce() -> Option<String>) {
-    let formatted = format!("{description}: {message}");
-
-    log::warn!("unexpected error: {}", &formatted);
-
+  // Accounts for an error that is about to be reported. Returns the reporter to report it to, or
+  // None if the limit is hit.
+  fn next_reporter(&mut self) -> Option<Arc<dyn Reporter>> {
     if self.remaining_reports == 0 {
       log::warn!("not reporting error, limit hit");
       if let Some(dropped_errors) = &self.dropped_errors {
         dropped_errors.inc();
       }
-      return;
+      return None;
     }
     self.remaining_reports -= 1;
 
+    Some(self.reporter.clone())
+  }
+
+  // Reports an unexpected error. The string will be forwarded to the reporter if one has been
+  // attached.
+  fn report(message: &str, description: &str, details: impl FnOnce() -> Option<String>) {
+    let formatted = format!("{description}: {message}");
+
+    log::warn!("unexpected error: {}", &formatted);
+
+    // The handler is not locked while the error is being reported, as reporting it may result in
+    // further errors.
+    let reporter = ERROR_HANDLER.lock().next_reporter();
+    let Some(reporter) = reporter else {
+      return;
+    };
+
     let details = details();
 
     // If a per-thread override has been set, use this instead of the static handler. This allows
     // overriding the handling in test while also working around the fact that the tests run in
     // parallel.
-    if PER_THREAD_REPORTER.with(|reporter| {
-      (*reporter.borrow()).as_ref().map_or(false, |reporter| {
-        reporter.report(&formatted, &details, &HashMap::new());
-        true
-      })
-    }) {
-      return;
-    }
+    let per_thread_reporter = PER_THREAD_REPORTER.with(|reporter| reporter.borrow().clone());
 
-    self.reporter.report(&formatted, &details, &HashMap::new());
+    per_thread_reporter
+      .unwrap_or(reporter)
+      .report(&formatted, &details, &HashMap::new());
   }
 }
 
@@ -250,9 +258,7 @@ pub fn handle_unexpected_error_with_details<E: Into<anyhow::Error> + Sync>(
   details: impl FnOnce() -> Option<String>,
 ) {
   let e: anyhow::Error = e.into();
-  ERROR_HANDLER
-    .lock()
-    .report(e.to_string().as_str(), description, details);
+  UnexpectedErrorHandler::report(e.to_string().as_str(), description, details);
 }
 
 pub fn handle_unexpected<T, E: Into<anyhow::Error> + Sync>(
-- 
2.43.0


From 0a596e5510a79452151478b3d6d75e8da355d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:47 +0000
Subject: [PATCH 54/64] fix: a log that completes the active run of an
 exclusive workflow does not begin the next one

---
 bd-workflows/src/workflow.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 47e4eeb..a156f3d 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -201,7 +201,8 @@ impl Workflow {
         );
         // An exclusive workflow can reset or potentially fork only if it has two runs, one that's
         // in an initial state and another one that is not in an initial state.
-        let has_active_run = self.runs.len() > 1;
+        // A run past the first one is active even if it has just completed and is gone.
+        let has_active_run = index > 0 || self.runs.len() > 1;
         let has_active_run_and_can_reset = has_active_run && did_make_progress;
 
         if !has_active_run_and_can_reset {
-- 
2.43.0


From 5a60806feb4f3b29af8a497f063eba2efd47ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:45 +0000
Subject: [PATCH 55/64] fix: decode the percent encoded message of a gRPC
 status

---
 bd-grpc/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index 1e5828f..855b69f 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -231,12 +231,16 @@ impl Status {
           .to_str()
           .unwrap_or_default(),
       ),
-      message: headers
-        .get(GRPC_MESSAGE)
-        .and_then(|value| value.to_str().ok().map(ToString::to_string)),
+      message: headers.get(GRPC_MESSAGE).and_then(Self::decode_message),
     }
   }
 
+  // The message is percent encoded on the wire, see into_response_with_body().
+  fn decode_message(value: &HeaderValue) -> Option<String> {
+    let value = value.to_str().ok()?;
+    Some(String::from_utf8_lossy(&urlencoding::decode_binary(value.as_bytes())).into_owned())
+  }
+
   // Convert a status into a response compatible with axum.
   #[must_use]
   pub fn into_response(self) -> Response {
@@ -768,7 +772,7 @@ impl<OutgoingType: Message, IncomingType: MessageFull>
 
             let status = Status {
               code,
-              message: grpc_message.map(|v| v.to_str().unwrap_or_default().to_string()),
+              message: grpc_message.map(|v| Status::decode_message(v).unwrap_or_default()),
             };
             return Err(Error::Grpc(status));
           }
-- 
2.43.0


From 2b5973e854f007f2ee1f0f88993a7fb640550beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:45 +0000
Subject: [PATCH 56/64] fix: send the error of a stream whatever its message
 contains

---
 bd-grpc/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index 855b69f..5244434 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -850,7 +850,9 @@ impl<ResponseType: Message> StreamingApiSender<ResponseType> {
       HeaderValue::from_str(&status.code.to_int().to_string()).unwrap(),
     );
     if let Some(message) = status.message {
-      trailers.insert(GRPC_MESSAGE, HeaderValue::from_str(&message).unwrap());
+      // As for headers, we need to make sure the message is a valid header value.
+      let encoded = urlencoding::encode(&message);
+      trailers.insert(GRPC_MESSAGE, HeaderValue::from_str(&encoded).unwrap());
     }
 
     self.send_trailers(trailers).await
-- 
2.43.0


From fc9ed6cbc7332039678ab5ec6366a7da607f81e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:45 +0000
Subject: [PATCH 57/64] fix: apply the unary request timeout to the response
 body

---
 bd-grpc/src/lib.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index 5244434..c39d454 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -467,20 +467,27 @@ impl<C: Connect + Clone + Send + Sync + 'static> Client<C> {
       },
     };
 
-    let response = match request_timeout
-      .timeout(self.common_request(service_method, extra_headers, body))
+    // The timeout applies to the entire exchange, including the response body.
+    let (decompression, body) = match request_timeout
+      .timeout(async {
+        let response = self
+          .common_request(service_method, extra_headers, body)
+          .await?;
+        let decompression = finalize_decompression(response.headers());
+        let body = response
+          .into_body()
+          .collect()
+          .await
+          .map_err(|e| Error::BodyStream(e.into()))?;
+        Ok::<_, Error>((decompression, body))
+      })
       .await
     {
       Ok(response) => response?,
       Err(_) => return Err(Error::RequestTimeout),
     };
-    let mut decoder = Decoder::new(finalize_decompression(response.headers()), OptimizeFor::Cpu);
-    let body = response
-      .into_body()
-      .collect()
-      .await
-      .map_err(|e| Error::BodyStream(e.into()))?
-      .to_bytes();
+    let mut decoder = Decoder::new(decompression, OptimizeFor::Cpu);
+    let body = body.to_bytes();
     let mut messages = decoder.decode_data(&body)?;
 
     if messages.len() != 1 {
-- 
2.43.0


From 295edb5cc52854c42fce3042143b7dc2b2b21a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:45 +0000
Subject: [PATCH 58/64] fix: report the error status in the trailers of a unary
 response

---
 bd-grpc/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index c39d454..a5e0af2 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -487,6 +487,12 @@ impl<C: Connect + Clone + Send + Sync + 'static> Client<C> {
       Err(_) => return Err(Error::RequestTimeout),
     };
     let mut decoder = Decoder::new(decompression, OptimizeFor::Cpu);
+    if let Some(trailers) = body.trailers().filter(|t| t.contains_key(GRPC_STATUS)) {
+      let status = Status::from_headers(trailers);
+      if status.code != Code::Ok {
+        return Err(status.into());
+      }
+    }
     let body = body.to_bytes();
     let mut messages = decoder.decode_data(&body)?;
 
-- 
2.43.0


From 609748265eab8c27dbf74e12eb8e5b60f00afed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:45 +0000
Subject: [PATCH 59/64] fix: keep reading a stream once nothing can stop it
 anymore

---
 bd-grpc/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index a5e0af2..98bb6f9 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -746,9 +746,13 @@ impl<OutgoingType: Message, IncomingType: MessageFull>
 
       let frame = tokio::select! {
         frame = self.body.frame() => frame,
-        _ = async {
+        result = async {
               self.read_stop.as_mut().unwrap().changed().await
             }, if self.read_stop.is_some() => {
+          if result.is_err() {
+            // Without a sender reading can no longer be stopped, and there is nothing to wait for.
+            self.read_stop = None;
+          }
           continue;
         },
       };
-- 
2.43.0


From 9c41ec75e3f7e09762178ee3fb83526dfa09fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:44 +0000
Subject: [PATCH 60/64] fix: return an error when sending after hyper
 networking has shut down

---
 bd-hyper-network/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bd-hyper-network/src/lib.rs b/bd-hyper-network/src/lib.rs
index 4bb3630..add8739 100644
--- a/bd-hyper-network/src/lib.rs
+++ b/bd-hyper-network/src/lib.rs
@@ -296,7 +296,7 @@ impl<T> PlatformNetworkManager<T> for Handle {
       .stream_event_tx
       .send(StreamEvent::Start(event_tx, headers))
       .await
-      .unwrap();
+      .map_err(|_| anyhow::anyhow!("hyper networking has shut down"))?;
 
     // Unlike the other implementations we continue to use the same channel for both stream
     // creation and events sent over the active stream.
@@ -313,7 +313,7 @@ impl PlatformNetworkStream for Handle {
       .stream_event_tx
       .send(StreamEvent::Data(Vec::from(data)))
       .await
-      .unwrap();
+      .map_err(|_| anyhow::anyhow!("hyper networking has shut down"))?;
 
     Ok(())
   }
-- 
2.43.0


From b2df83e005f6aeaa76e490b1f24da5e04dd42b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:17 +0000
Subject: [PATCH 61/64] fix: end hyper networking at shutdown also while it
 waits for the server or the client

---
 bd-hyper-network/src/lib.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/bd-hyper-network/src/lib.rs b/bd-hyper-network/src/lib.rs
index add8739..316ab84 100644
--- a/bd-hyper-network/src/lib.rs
+++ b/bd-hyper-network/src/lib.rs
@@ -122,12 +122,26 @@ impl HyperNetwork {
         }
       };
 
-      let Some(event) = self.process_stream(&client, &event_tx, headers).await else {
-        return Ok(());
+      let mut shutdown = self.shutdown.clone();
+      let process_stream = async {
+        match self.process_stream(&client, &event_tx, headers).await {
+          // If the channel has shut down on us, we must be shutting down.
+          Some(event) => event_tx.send(event).await.is_ok(),
+          None => false,
+        }
+      };
+
+      // Connecting, as well as handing data to a server or client that doesn't take it, can block
+      // for an arbitrary time, so all of this is gated on the shutdown.
+      let await_next_stream = tokio::select! {
+        await_next_stream = process_stream => await_next_stream,
+        () = shutdown.cancelled() => {
+          log::debug!("received shutdown signal, shutting down hyper networking");
+          false
+        },
       };
 
-      if event_tx.send(event).await.is_err() {
-        // Channel has shut down on us, we must be shutting down.
+      if !await_next_stream {
         return Ok(());
       }
     }
@@ -143,7 +157,6 @@ impl HyperNetwork {
 
     let (body_sender, request) = Self::create_request(self.uri.as_str(), headers);
 
-    // TODO(snowp): Should this also be gated on the shutdown hook?
     let mut response = match client.request(request).await {
       Ok(response) => response,
       Err(e) => {
@@ -191,10 +204,6 @@ impl HyperNetwork {
         frame = response.body_mut().frame() => {
           Some(Self::handle_inbound_data(frame).await)
         }
-        () = self.shutdown.cancelled() => {
-          log::debug!("received shutdown signal, shutting down hyper networking");
-          return None;
-        }
       };
 
       // We may need to process a stream event in response to the above call.
-- 
2.43.0


From 96667f63b9d219cee1ae8115ae541f2e79e98fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:54 +0000
Subject: [PATCH 62/64] fix: let neither direction of a hyper network stream
 keep the other one from progressing

---
 bd-hyper-network/src/lib.rs | 100 ++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 57 deletions(-)

diff --git a/bd-hyper-network/src/lib.rs b/bd-hyper-network/src/lib.rs
index 316ab84..408962e 100644
--- a/bd-hyper-network/src/lib.rs
+++ b/bd-hyper-network/src/lib.rs
@@ -124,10 +124,19 @@ impl HyperNetwork {
 
       let mut shutdown = self.shutdown.clone();
       let process_stream = async {
-        match self.process_stream(&client, &event_tx, headers).await {
-          // If the channel has shut down on us, we must be shutting down.
-          Some(event) => event_tx.send(event).await.is_ok(),
-          None => false,
+        let Some(event) = self.process_stream(&client, &event_tx, headers).await else {
+          return false;
+        };
+
+        // Data for the stream that just ended is dropped, so that the API mux gets to receive the
+        // event. If the channel has shut down on us, we must be shutting down.
+        let send_event = event_tx.send(event);
+        tokio::pin!(send_event);
+        loop {
+          tokio::select! {
+            result = &mut send_event => return result.is_ok(),
+            Some(_) = self.stream_event_rx.recv() => {},
+          }
         }
       };
 
@@ -194,71 +203,48 @@ impl HyperNetwork {
       }
     }
 
+    // Data that is waiting to be passed on in either direction. Waiting for one direction must not
+    // keep the other one from making progress, as the API mux doesn't receive events while it is
+    // waiting for its data to be taken.
+    let mut outbound = None;
+    let mut inbound = None;
     loop {
-      // Handle either an inbound message from the server or an outbound message from the api mux.
-      let maybe_event = tokio::select! {
-        stream_event = self.stream_event_rx.recv() => {
+      tokio::select! {
+        stream_event = self.stream_event_rx.recv(), if outbound.is_none() => {
           // Short circuit if stream_event has been closed - this indicates shutdown.
-          Self::handle_outbound_data(&body_sender, stream_event?).await
+          match stream_event? {
+            StreamEvent::Start(..) => panic!("should never happen"),
+            StreamEvent::Data(data) => outbound = Some(data),
+          }
         },
-        frame = response.body_mut().frame() => {
-          Some(Self::handle_inbound_data(frame).await)
-        }
-      };
-
-      // We may need to process a stream event in response to the above call.
-      let Some(event) = maybe_event else {
-        continue;
-      };
-
-      // Forward any data directly via the event_tx so we can continue this stream, if we end up
-      // with a StreamClosed then we bubble that up.
-      match event {
-        bd_api::StreamEvent::Data(data) => {
-          if event_tx
-            .send(bd_api::StreamEvent::Data(data))
-            .await
-            .is_err()
-          {
-            return None;
+        permit = body_sender.reserve(), if outbound.is_some() => {
+          let Ok(permit) = permit else {
+            // We failed to send data over the body channel, the stream must have closed.
+            // Signal that the stream closed.
+            return Some(bd_api::StreamEvent::StreamClosed(
+              "upstream close".to_string(),
+            ));
+          };
+
+          permit.send(Ok(Frame::data(outbound.take().unwrap().into())));
+        },
+        frame = response.body_mut().frame(), if inbound.is_none() => {
+          match Self::handle_inbound_data(frame) {
+            closed @ bd_api::StreamEvent::StreamClosed(_) => return Some(closed),
+            data @ bd_api::StreamEvent::Data(_) => inbound = Some(data),
           }
         },
-        bd_api::StreamEvent::StreamClosed(closed) => {
-          return Some(bd_api::StreamEvent::StreamClosed(closed))
+        permit = event_tx.reserve(), if inbound.is_some() => {
+          // If the channel has shut down on us, we must be shutting down.
+          permit.ok()?.send(inbound.take().unwrap());
         },
       }
     }
   }
 
-  /// Handles outbound data received over the stream event channel from the API mux. Returns true
-  /// if the stream should be closed.
-  async fn handle_outbound_data(
-    body_sender: &BodySender,
-    event: StreamEvent,
-  ) -> Option<bd_api::StreamEvent> {
-    match event {
-      StreamEvent::Start(..) => panic!("should never happen"),
-      StreamEvent::Data(data) => {
-        if body_sender
-          .send(Ok(Frame::data(data.into())))
-          .await
-          .is_err()
-        {
-          // We failed to send data over the body channel, the stream must have closed.
-          // Signal that the stream closed.
-          return Some(bd_api::StreamEvent::StreamClosed(
-            "upstream close".to_string(),
-          ));
-        }
-
-        None
-      },
-    }
-  }
-
   /// Handles inbound data arriving via the hyper response channel. Returns true if the stream
   /// should be closed.
-  async fn handle_inbound_data(
+  fn handle_inbound_data(
     frame: Option<std::result::Result<Frame<Bytes>, hyper::Error>>,
   ) -> bd_api::StreamEvent {
     // Stream is closing, signal close and go back to waiting for a new stream.
-- 
2.43.0


From b812ff510565cf5362c00f82698e435b73a221a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:40 +0000
Subject: [PATCH 63/64] fix: receive what the server sent on a hyper network
 stream before it stopped reading

---
 bd-hyper-network/src/lib.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bd-hyper-network/src/lib.rs b/bd-hyper-network/src/lib.rs
index 408962e..8ef57ce 100644
--- a/bd-hyper-network/src/lib.rs
+++ b/bd-hyper-network/src/lib.rs
@@ -218,15 +218,12 @@ impl HyperNetwork {
           }
         },
         permit = body_sender.reserve(), if outbound.is_some() => {
-          let Ok(permit) = permit else {
-            // We failed to send data over the body channel, the stream must have closed.
-            // Signal that the stream closed.
-            return Some(bd_api::StreamEvent::StreamClosed(
-              "upstream close".to_string(),
-            ));
-          };
-
-          permit.send(Ok(Frame::data(outbound.take().unwrap().into())));
+          let data = outbound.take().unwrap();
+          // If this fails the server doesn't read the stream anymore. There might still be data which
+          // it sent before that, so receive the rest until the stream ends.
+          if let Ok(permit) = permit {
+            permit.send(Ok(Frame::data(data.into())));
+          }
         },
         frame = response.body_mut().frame(), if inbound.is_none() => {
           match Self::handle_inbound_data(frame) {
-- 
2.43.0


From 425143a1591a906dae0d4d6afbd0700509b4f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:35 +0000
Subject: [PATCH 64/64] fix: validate the length of strings in characters and
 not in bytes

---
 bd-pgv/src/proto_validate.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bd-pgv/src/proto_validate.rs b/bd-pgv/src/proto_validate.rs
index 8e00bf9..a96eea9 100644
--- a/bd-pgv/src/proto_validate.rs
+++ b/bd-pgv/src/proto_validate.rs
@@ -220,7 +220,9 @@ fn validate_string(
   message: &dyn protobuf::MessageDyn,
 ) -> error::Result<()> {
   if let Some(ReflectValueRef::String(value)) = get_singular_or_default(field_descriptor, message) {
-    if rules.has_min_len() && rules.min_len() > value.len().try_into().unwrap() {
+    // Lengths are in characters, which may differ from the number of bytes.
+    let length = value.chars().count();
+    if rules.has_min_len() && rules.min_len() > length.try_into().unwrap() {
       return Err(error::Error::ProtoValidation(format!(
         "field '{}' in message '{}' requires string length >= {}",
         field_descriptor.full_name(),
@@ -229,7 +231,7 @@ fn validate_string(
       )));
     }
 
-    if rules.has_max_len() && rules.max_len() < value.len().try_into().unwrap() {
+    if rules.has_max_len() && rules.max_len() < length.try_into().unwrap() {
       return Err(error::Error::ProtoValidation(format!(
         "field '{}' in message '{}' requires string length <= {}",
         field_descriptor.full_name(),
-- 
2.43.0

