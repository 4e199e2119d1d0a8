From 8b000795375362de473801674082fb8fba9f8c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 01/14] fix: MetricsIter::size_hint counts dynamic metrics

---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 06e1459..46c5922 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -88,7 +88,7 @@ impl<'a> Iterator for MetricsIter<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let (slo, shi) = self.sm.size_hint();
-        let (dlo, dhi) = self.sm.size_hint();
+        let (dlo, dhi) = self.dm.size_hint();
 
         match (shi, dhi) {
             (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),
-- 
2.43.0


From 824ed95f88349d2ae043ec9650fc1be707e508a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 02/14] fix: MetricsIter::nth_back continues into the static
 metrics

---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 46c5922..ab6f3a3 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -125,7 +125,7 @@ impl<'a> DoubleEndedIterator for MetricsIter<'a> {
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
         let len = self.dm.len();
-        self.dm.nth_back(n).or_else(|| self.dm.nth_back(n - len))
+        self.dm.nth_back(n).or_else(|| self.sm.nth_back(n - len))
     }
 
     fn rfold<B, F>(self, init: B, mut f: F) -> B
-- 
2.43.0


From 912f27a908b8455ec292ca9069a0da061ea6d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 03/14] fix: use the formatter given to
 MetricBuilder::formatter

---
 metriken-core/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index a648eae..19adeee 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -129,6 +129,11 @@ impl MetricEntry {
         let formatter = self
             .request_value::<crate::wrapper::FormattingFn>()
             .map(|func| func.0)
+            // Dynamic metrics provide their formatter by reference.
+            .or_else(|| {
+                self.request_ref::<crate::wrapper::FormattingFn>()
+                    .map(|func| func.0)
+            })
             .unwrap_or(crate::default_formatter);
 
         formatter(self, format)
-- 
2.43.0


From 7bcbef93fc669dc51e8b47fdb9bcfc4f61bb1768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 04/14] fix: MetricEntry::is recognizes dynamic metrics

---
 metriken-core/src/dynmetrics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index 008d831..b54e692 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -157,6 +157,10 @@ pub(crate) fn unregister(metric: *const dyn Metric) {
 }
 
 /// A metric combined with a set of dynamic providers.
+///
+/// The metric must stay at the same address as the struct itself so that
+/// [`MetricEntry::is`] recognizes it.
+#[repr(C)]
 struct ProviderMetric<M> {
     metric: M,
     provider: ProviderMap,
-- 
2.43.0


From 9ee1e1ae9799b9a4069a0e77ed47e465acf4e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 05/14] fix: taking a second view of the metrics cannot
 deadlock with a waiting registration

---
 metriken-core/src/dynmetrics.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index b54e692..e408908 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -53,7 +53,9 @@ impl DynMetricsRegistry {
 static REGISTRY: RwLock<DynMetricsRegistry> = const_rwlock(DynMetricsRegistry::new());
 
 pub(crate) fn get_registry() -> RwLockReadGuard<'static, DynMetricsRegistry> {
-    REGISTRY.read()
+    // A plain read() would deadlock if this thread already holds a view of the
+    // registry and another thread is waiting to register or unregister a metric.
+    REGISTRY.read_recursive()
 }
 
 /// Builder for creating a dynamic metric.
-- 
2.43.0


From 723b944e4abb4aa46d33e98aa4134d3fd7ff05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 06/14] fix: escape label values in the default Prometheus
 format

---
 metriken-core/src/formatter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metriken-core/src/formatter.rs b/metriken-core/src/formatter.rs
index c7b07e6..c27647d 100644
--- a/metriken-core/src/formatter.rs
+++ b/metriken-core/src/formatter.rs
@@ -29,7 +29,7 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
             let metadata: Vec<String> = metric
                 .metadata()
                 .iter()
-                .map(|(key, value)| format!("{key}=\"{value}\""))
+                .map(|(key, value)| format!("{key}=\"{}\"", escape_label_value(value)))
                 .collect();
             let metadata = metadata.join(", ");
 
@@ -42,3 +42,11 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
         _ => metric.name().to_string(),
     }
 }
+
+/// Escapes a label value as required by the Prometheus text format.
+fn escape_label_value(value: &str) -> String {
+    value
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('\n', "\\n")
+}
-- 
2.43.0


From a5eae7f662db41f7505ab5116d79e3047027ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 07/14] fix: AtomicHistogram::increment rejects every
 out-of-range value and leaves no trace of it

---
 metriken/src/histogram.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index 24bfd9e..eeba4ff 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -41,6 +41,13 @@ impl AtomicHistogram {
 
     /// Increments the bucket for a corresponding value.
     pub fn increment(&self, value: u64) -> Result<(), Error> {
+        // Check the range before the buckets are created so that a rejected
+        // value does not make the histogram look as if it had been incremented.
+        let max_value_power = self.config.max_value_power();
+        if max_value_power < 64 && value >> max_value_power != 0 {
+            return Err(Error::OutOfRange);
+        }
+
         self.get_or_init().increment(value)
     }
 
-- 
2.43.0


From 7f8ec004b613b18418854adf0264545d0e8ec3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 08/14] fix: the first RwLockHistogram update is atomic for
 concurrent loads

---
 metriken/src/histogram.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index eeba4ff..92ce840 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -117,10 +117,19 @@ impl RwLockHistogram {
             return Err(Error::IncompatibleParameters);
         }
 
-        let mut histogram = self.get_or_init().write();
-
-        let buckets = histogram.as_mut_slice();
-        buckets.copy_from_slice(data);
+        // The first update publishes a histogram that already holds the data, so
+        // that a concurrent load never sees one without it.
+        let mut first = false;
+        let histogram = self.inner.get_or_init(|| {
+            first = true;
+            let mut histogram = ::histogram::Histogram::with_config(&self.config);
+            histogram.as_mut_slice().copy_from_slice(data);
+            histogram.into()
+        });
+
+        if !first {
+            histogram.write().as_mut_slice().copy_from_slice(data);
+        }
 
         Ok(())
     }
@@ -134,11 +143,6 @@ impl RwLockHistogram {
     pub fn load(&self) -> Option<Histogram> {
         self.inner.get().map(|h| h.read().clone())
     }
-
-    fn get_or_init(&self) -> &RwLock<::histogram::Histogram> {
-        self.inner
-            .get_or_init(|| ::histogram::Histogram::with_config(&self.config).into())
-    }
 }
 
 impl Metric for RwLockHistogram {
-- 
2.43.0


From 6394d68b53677fb1d64ca9dc919906f14ebdcb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 09/14] fix: an initialized Lazy forwards requests to its
 metric

---
 metriken/src/lazy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metriken/src/lazy.rs b/metriken/src/lazy.rs
index 4ddaecb..1d6ba41 100644
--- a/metriken/src/lazy.rs
+++ b/metriken/src/lazy.rs
@@ -122,4 +122,10 @@ impl<T: Metric, F: Send + 'static> Metric for Lazy<T, F> {
     fn value(&self) -> Option<crate::Value> {
         Lazy::get(self).and_then(|metric| metric.value())
     }
+
+    fn provide<'a>(&'a self, request: &mut metriken_core::Request<'a>) {
+        if let Some(metric) = Lazy::get(self) {
+            metric.provide(request)
+        }
+    }
 }
-- 
2.43.0


From 6f404a3ff3afcd02a1512e99801f8756a684a690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 10/14] fix: a V2 snapshot in JSON is not deserialized as V1

---
 metriken-exposition/src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-exposition/src/snapshot.rs b/metriken-exposition/src/snapshot.rs
index 84b3fd6..7ea0ff5 100644
--- a/metriken-exposition/src/snapshot.rs
+++ b/metriken-exposition/src/snapshot.rs
@@ -63,8 +63,10 @@ pub struct SnapshotV2 {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum Snapshot {
-    V1(SnapshotV1),
+    // The variants are tried in this order when deserializing. A `SnapshotV2` in
+    // a self-describing format also reads as a `SnapshotV1`, so it comes first.
     V2(SnapshotV2),
+    V1(SnapshotV1),
 }
 
 #[cfg(feature = "parquet")]
-- 
2.43.0


From ca09ceb2767025d68aa257ef7828f41603f38480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 11/14] fix: conversion reports read and seek errors instead of
 panicking

---
 metriken-exposition/src/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 967eacb..69b415d 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -61,7 +61,7 @@ impl MsgpackToParquet {
         let mut schema = ParquetSchema::new();
 
         // First pass to build the schema
-        while !reader.fill_buf().unwrap().is_empty() {
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             schema.push(s);
@@ -69,8 +69,8 @@ impl MsgpackToParquet {
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
         // Rewind file pointer and second pass for the actual metrics
-        reader.rewind().unwrap();
-        while !reader.fill_buf().unwrap().is_empty() {
+        reader.rewind()?;
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             writer.push(s)?;
-- 
2.43.0


From 674d7ac1ff24a9436f6e59a09f14bd32e570e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:42 +0000
Subject: [PATCH 12/14] fix: both conversion passes start where the handle was
 positioned

---
 metriken-exposition/src/convert.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 69b415d..66eb805 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 use std::fs::File;
-use std::io::{BufRead, BufReader, Read, Seek, Write};
+use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
 use std::path::Path;
 
 use parquet::errors::ParquetError;
@@ -59,6 +59,7 @@ impl MsgpackToParquet {
     ) -> Result<i64, ParquetError> {
         let mut reader = BufReader::new(reader);
         let mut schema = ParquetSchema::new();
+        let start = reader.stream_position()?;
 
         // First pass to build the schema
         while !reader.fill_buf()?.is_empty() {
@@ -68,8 +69,8 @@ impl MsgpackToParquet {
         }
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
-        // Rewind file pointer and second pass for the actual metrics
-        reader.rewind()?;
+        // Return to the start and second pass for the actual metrics
+        reader.seek(SeekFrom::Start(start))?;
         while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
-- 
2.43.0


From 6848c9a7287865f79d347d65503a1869fe691f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:19 +0000
Subject: [PATCH 13/14] fix: conversion retries an interrupted read at a
 snapshot boundary

---
 metriken-exposition/src/convert.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 66eb805..77e2d49 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 use std::fs::File;
-use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
+use std::io::{self, BufRead, BufReader, ErrorKind, Read, Seek, SeekFrom, Write};
 use std::path::Path;
 
 use parquet::errors::ParquetError;
@@ -62,7 +62,7 @@ impl MsgpackToParquet {
         let start = reader.stream_position()?;
 
         // First pass to build the schema
-        while !reader.fill_buf()?.is_empty() {
+        while !at_end(&mut reader)? {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             schema.push(s);
@@ -71,7 +71,7 @@ impl MsgpackToParquet {
 
         // Return to the start and second pass for the actual metrics
         reader.seek(SeekFrom::Start(start))?;
-        while !reader.fill_buf()?.is_empty() {
+        while !at_end(&mut reader)? {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             writer.push(s)?;
@@ -81,3 +81,15 @@ impl MsgpackToParquet {
         Ok(metadata.num_rows)
     }
 }
+
+/// Returns whether all of the input has been read. As everywhere in `std::io`,
+/// an interrupted read is retried.
+fn at_end(reader: &mut impl BufRead) -> io::Result<bool> {
+    loop {
+        match reader.fill_buf() {
+            Ok(buf) => return Ok(buf.is_empty()),
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e),
+        }
+    }
+}
-- 
2.43.0


From fab4fe85c2255091f6a2f8855f74e0fc44b3697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:36 +0000
Subject: [PATCH 14/14] fix: a time that does not fit the Parquet columns is an
 error, not a panic or a wrapped value

---
 metriken-exposition/src/parquet.rs  |  2 +-
 metriken-exposition/src/snapshot.rs | 24 +++++++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/metriken-exposition/src/parquet.rs b/metriken-exposition/src/parquet.rs
index 2b5f567..e3f11fc 100644
--- a/metriken-exposition/src/parquet.rs
+++ b/metriken-exposition/src/parquet.rs
@@ -352,7 +352,7 @@ impl<W: Write + Send> ParquetWriter<W> {
     pub fn push(&mut self, snapshot: Snapshot) -> Result<(), ParquetError> {
         let mut columns: Vec<Arc<dyn Array>> = Vec::with_capacity(self.schema.fields().len());
 
-        let mut hs: HashedSnapshot = HashedSnapshot::from(snapshot);
+        let mut hs = HashedSnapshot::try_from(snapshot)?;
 
         // Create a single element column for the timestamp and duration
         columns.push(Arc::new(UInt64Array::from(vec![hs.ts])));
diff --git a/metriken-exposition/src/snapshot.rs b/metriken-exposition/src/snapshot.rs
index 7ea0ff5..0594767 100644
--- a/metriken-exposition/src/snapshot.rs
+++ b/metriken-exposition/src/snapshot.rs
@@ -1,6 +1,8 @@
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::time::{Duration, SystemTime};
 
+#[cfg(feature = "parquet")]
+use parquet::errors::ParquetError;
 #[cfg(feature = "msgpack")]
 use rmp_serde::encode::Error as SerializeMsgpackError;
 #[cfg(feature = "json")]
@@ -190,15 +192,17 @@ impl Snapshot {
 }
 
 #[cfg(feature = "parquet")]
-impl From<Snapshot> for HashedSnapshot {
-    fn from(mut snapshot: Snapshot) -> Self {
+impl TryFrom<Snapshot> for HashedSnapshot {
+    type Error = ParquetError;
+
+    fn try_from(mut snapshot: Snapshot) -> Result<Self, ParquetError> {
         let ts: u64 = snapshot
             .systemtime()
             .duration_since(SystemTime::UNIX_EPOCH)
-            .expect("System Clock is earlier than 1970; needs reset")
-            .as_nanos() as u64;
+            .map_err(|e| ParquetError::External(Box::new(e)))
+            .and_then(nanoseconds)?;
 
-        let duration: Option<u64> = snapshot.duration().map(|x| x.as_nanos() as u64);
+        let duration: Option<u64> = snapshot.duration().map(nanoseconds).transpose()?;
 
         let counters: HashMap<String, Counter> = HashMap::from_iter(
             snapshot
@@ -219,12 +223,18 @@ impl From<Snapshot> for HashedSnapshot {
                 .map(|v| (canonicalize_metric_name(&v.name, &v.metadata), v)),
         );
 
-        Self {
+        Ok(Self {
             ts,
             duration,
             counters,
             gauges,
             histograms,
-        }
+        })
     }
 }
+
+/// Times are stored as unsigned 64-bit nanoseconds.
+#[cfg(feature = "parquet")]
+fn nanoseconds(time: Duration) -> Result<u64, ParquetError> {
+    u64::try_from(time.as_nanos()).map_err(|e| ParquetError::External(Box::new(e)))
+}
-- 
2.43.0

