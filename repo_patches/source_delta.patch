From 1c85093e3319fcf421fd7e20f3e5ec73773775fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 01/52] verif: hooks behind cfg(monolith_verif)

---
 src/chunk/chunk.rs          |   3 +
 src/db.rs                   |  52 +++++++++++++++++-
 src/indexer/mod.rs          |   5 ++
 src/indexer/sled_indexer.rs |  25 +++++++++
 src/indexer/tikv_indexer.rs |  15 +++++
 src/lib.rs                  |   2 +
 src/server.rs               |  11 ++++
 src/storage/mod.rs          |   5 ++
 src/storage/sled_storage.rs |  13 +++++
 src/storage/tikv_storage.rs |  15 +++++
 src/verif.rs                | 107 ++++++++++++++++++++++++++++++++++++
 src/wal/mod.rs              |   2 +
 12 files changed, 254 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 5bfa9e9..e1ead00 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -11,7 +11,10 @@ use crate::MonolithErr::OutOfRangeErr;
 use crate::indexer::Indexer;
 use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicBool, Ordering};
+#[cfg(not(monolith_verif))]
 use std::sync::RwLock;
+#[cfg(monolith_verif)]
+use crate::verif::RwLock;
 
 use serde::{Deserialize, Serialize};
 use std::fs;
diff --git a/src/db.rs b/src/db.rs
index 5208abb..a6d4548 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,7 +1,11 @@
 use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::channel;
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
+#[cfg(not(monolith_verif))]
+use std::sync::RwLock;
+#[cfg(monolith_verif)]
+use crate::verif::RwLock;
 use std::time::Duration;
 use std::{fs, thread};
 
@@ -367,3 +371,49 @@ mod tests {
         Ok(())
     }
 }
+
+#[cfg(monolith_verif)]
+impl<S, I> MonolithDb<S, I>
+where
+    S: Storage + Send + Sync + 'static,
+    I: Indexer + Send + Sync + 'static,
+{
+    pub fn verif_from_parts(
+        current: Arc<Chunk<S, I>>,
+        secondary: Vec<Arc<Chunk<S, I>>>,
+        options: DbOpts,
+        storage_builder: Box<dyn Builder<S> + Sync + Send>,
+        indexer_builder: Box<dyn Builder<I> + Sync + Send>,
+    ) -> Arc<Self> {
+        Arc::new(MonolithDb {
+            current_chuck: RwLock::new(current),
+            secondary_chunks: RwLock::new(secondary),
+            options,
+            storage_builder,
+            indexer_builder,
+        })
+    }
+
+    pub fn verif_swap(&self, start_time: Timestamp) -> Result<()> {
+        self.swap(start_time)
+    }
+
+    pub fn verif_chunks(&self) -> (Arc<Chunk<S, I>>, Vec<Arc<Chunk<S, I>>>) {
+        (
+            self.current_chuck.read().unwrap().clone(),
+            self.secondary_chunks.read().unwrap().clone(),
+        )
+    }
+
+    pub fn verif_read_existing_chunk(
+        dir: &Path,
+        storage_builder: &Box<dyn Builder<S> + Sync + Send>,
+        indexer_builder: &Box<dyn Builder<I> + Sync + Send>,
+    ) -> Result<Vec<Arc<Chunk<S, I>>>> {
+        Self::read_existing_chunk(dir, storage_builder, indexer_builder)
+    }
+
+    pub fn verif_read_or_create_metadata(base_dir: &Path, m: &DbMetadata) -> Result<()> {
+        Self::read_or_create_metadata(base_dir, m)
+    }
+}
diff --git a/src/indexer/mod.rs b/src/indexer/mod.rs
index 7efdded..cf6056c 100644
--- a/src/indexer/mod.rs
+++ b/src/indexer/mod.rs
@@ -2,6 +2,11 @@ mod common;
 mod sled_indexer;
 mod tikv_indexer;
 
+#[cfg(monolith_verif)]
+pub mod verif {
+    pub use super::sled_indexer::verif_kv::*;
+}
+
 pub use common::*;
 pub use sled_indexer::SledIndexer;
 pub use sled_indexer::SledIndexerBuilder;
diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 0beeccc..4736f58 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -328,3 +328,28 @@ impl KvIndexerProcessor {
         Ok(_id_str.parse::<TimeSeriesId>()?)
     }
 }
+
+#[cfg(monolith_verif)]
+pub mod verif_kv {
+    use super::*;
+
+    pub fn encode_label(label: &Label) -> String {
+        KvIndexerProcessor::encode_label(label)
+    }
+
+    pub fn encode_labels(labels: &Labels, with_prefix: bool) -> String {
+        KvIndexerProcessor::encode_labels(labels, with_prefix)
+    }
+
+    pub fn decode_labels(labels: String, is_key: bool) -> Result<Labels> {
+        KvIndexerProcessor::decode_labels(labels, is_key)
+    }
+
+    pub fn encode_time_series_id(id: TimeSeriesId) -> String {
+        KvIndexerProcessor::encode_time_series_id(id)
+    }
+
+    pub fn decode_time_series_id(id: String) -> Result<TimeSeriesId> {
+        KvIndexerProcessor::decode_time_series_id(id)
+    }
+}
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index c9b0449..e162075 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -390,3 +390,18 @@ mod tests {
         Ok(())
     }
 }
+
+#[cfg(monolith_verif)]
+impl TiKvIndexer {
+    pub fn verif_new(
+        client: Box<dyn TiKvRawBackend>,
+        chunk_identifier: Vec<u8>,
+        indexer_identifier: Vec<u8>,
+    ) -> TiKvIndexer {
+        TiKvIndexer {
+            client,
+            chunk_identifier,
+            indexer_identifier,
+        }
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index da5fcba..e6ae0ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,8 @@ pub mod db;
 pub mod server;
 pub mod indexer;
 pub mod storage;
+#[cfg(monolith_verif)]
+pub mod verif;
 
 
 /// Generated proto definition
diff --git a/src/server.rs b/src/server.rs
index 45f924a..9293907 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -205,3 +205,14 @@ mod tests {
         unimplemented!()
     }
 }
+
+#[cfg(monolith_verif)]
+impl<'a, S, I> MonolithServer<'a, S, I>
+where
+    S: Sync + Send + Storage + 'static,
+    I: Sync + Send + Indexer + 'static,
+{
+    pub fn verif_process(server: MonolithServer<S, I>, request: Request) {
+        MonolithServer::_process(server, request)
+    }
+}
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index f3b3e61..9b65bbd 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -2,6 +2,11 @@ mod common;
 mod sled_storage;
 mod tikv_storage;
 
+#[cfg(monolith_verif)]
+pub mod verif {
+    pub use super::sled_storage::verif_kv::*;
+}
+
 pub use common::*;
 pub use sled_storage::{SledStorage, SledStorageBuilder};
 pub use tikv_storage::{TiKvStorage, TiKvStorageBuilder};
diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index d03587a..cac82a2 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -169,3 +169,16 @@ impl SledStorageBuilder {
         SledStorageBuilder {}
     }
 }
+
+#[cfg(monolith_verif)]
+pub mod verif_kv {
+    use super::*;
+
+    pub fn encode_time_point(timestamp: Timestamp, value: Value) -> Result<Vec<u8>> {
+        KvStorageProcessor::encode_time_point(timestamp, value)
+    }
+
+    pub fn decode_time_point(raw: &[u8]) -> Result<TimePoint> {
+        KvStorageProcessor::decode_time_point(raw)
+    }
+}
diff --git a/src/storage/tikv_storage.rs b/src/storage/tikv_storage.rs
index 56d856c..f42d661 100644
--- a/src/storage/tikv_storage.rs
+++ b/src/storage/tikv_storage.rs
@@ -228,3 +228,18 @@ mod tests {
         Ok(())
     }
 }
+
+#[cfg(monolith_verif)]
+impl TiKvStorage {
+    pub fn verif_new(
+        client: Box<dyn TiKvRawBackend>,
+        chunk_identifier: Vec<u8>,
+        storage_identifier: Vec<u8>,
+    ) -> TiKvStorage {
+        TiKvStorage {
+            client,
+            chunk_identifier,
+            storage_identifier,
+        }
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..ea31857
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,107 @@
+//! Hooks for external verification harnesses; compiled only with `--cfg monolith_verif`.
+//!
+//! Re-exports of private items, and a read-write lock that tells the harness' scheduler where a
+//! thread may be preempted, where it blocks and when it lets others go on.
+pub use crate::backend::tikv::TiKvRawBackend;
+pub use crate::indexer::verif as indexer;
+pub use crate::storage::verif as storage;
+pub use crate::wal::{Entry, EntryType, FlushPolicy, Segment};
+
+pub mod proto {
+    pub use crate::proto::*;
+}
+
+pub fn wal_magic_number() -> u64 {
+    crate::wal::WAL_MAGIC_NUMBER
+}
+
+extern "C" {
+    /// The current thread may be preempted here.
+    fn vx_yield();
+    /// The current thread cannot go on before somebody calls vx_wake.
+    fn vx_block();
+    /// Blocked threads may try again.
+    fn vx_wake();
+}
+
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, PoisonError, TryLockError};
+
+#[derive(Default)]
+pub struct RwLock<T>(std::sync::RwLock<T>);
+pub struct ReadGuard<'a, T>(Option<std::sync::RwLockReadGuard<'a, T>>);
+pub struct WriteGuard<'a, T>(Option<std::sync::RwLockWriteGuard<'a, T>>);
+
+impl<T> RwLock<T> {
+    pub fn new(t: T) -> Self {
+        RwLock(std::sync::RwLock::new(t))
+    }
+
+    pub fn read(&self) -> LockResult<ReadGuard<'_, T>> {
+        loop {
+            unsafe { vx_yield() };
+            match self.0.try_read() {
+                Ok(g) => return Ok(ReadGuard(Some(g))),
+                Err(TryLockError::Poisoned(e)) => {
+                    return Err(PoisonError::new(ReadGuard(Some(e.into_inner()))))
+                }
+                Err(TryLockError::WouldBlock) => unsafe { vx_block() },
+            }
+        }
+    }
+
+    pub fn write(&self) -> LockResult<WriteGuard<'_, T>> {
+        loop {
+            unsafe { vx_yield() };
+            match self.0.try_write() {
+                Ok(g) => return Ok(WriteGuard(Some(g))),
+                Err(TryLockError::Poisoned(e)) => {
+                    return Err(PoisonError::new(WriteGuard(Some(e.into_inner()))))
+                }
+                Err(TryLockError::WouldBlock) => unsafe { vx_block() },
+            }
+        }
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
+
+impl<'a, T> Deref for ReadGuard<'a, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        self.0.as_ref().unwrap()
+    }
+}
+
+impl<'a, T> Deref for WriteGuard<'a, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        self.0.as_ref().unwrap()
+    }
+}
+
+impl<'a, T> DerefMut for WriteGuard<'a, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.0.as_mut().unwrap()
+    }
+}
+
+impl<'a, T> Drop for ReadGuard<'a, T> {
+    fn drop(&mut self) {
+        self.0.take();
+        unsafe { vx_wake() }
+    }
+}
+
+impl<'a, T> Drop for WriteGuard<'a, T> {
+    fn drop(&mut self) {
+        self.0.take();
+        unsafe { vx_wake() }
+    }
+}
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 5f3a12f..203a906 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -4,6 +4,8 @@ use std::sync::{Arc, Mutex};
 
 mod segment;
 mod writer;
+#[cfg(monolith_verif)]
+pub use segment::Segment;
 
 /// Note that we only use the first three byte in this magic number
 /// User can still use the remaining 5 bytes to add more metadata
-- 
2.43.0


From 231a812feee2906b62553d12dda72ec4c988c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 02/52] fix: Gorilla delta-of-delta classes hold only what the
 decoder reads back

---
 src/compaction/gorilla.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 90cbc1b..a4ae858 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -393,7 +393,8 @@ fn vec_with_len(len: usize) -> Vec<u8> {
 
 // Find if the timestamp's meaningful in the `nbit` range.
 fn in_bit_range(t: i64, nbits: u8) -> bool {
-    return -((1 << (nbits - 1)) - 1) as i64 <= t && t <= 1 << (nbits - 1) as i64;
+    let max = (1i64 << (nbits - 1)) - 1;
+    return -max <= t && t <= max;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0bed7cf6e99e7a985853177736aec82b4c36017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 03/52] fix: Gorilla values whose xor has over 31 leading zeros
 or 64 significant bits

---
 src/compaction/gorilla.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index a4ae858..9957bfd 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -101,7 +101,8 @@ impl GorillaCompactor {
             } else {
                 // single one bit
                 self.bstream.write_one();
-                let leading: u8 = xord.leading_zeros() as u8;
+                // there are 5 bits to store the number of leading zeros
+                let leading: u8 = std::cmp::min(xord.leading_zeros() as u8, 31);
                 let trailing: u8 = xord.trailing_zeros() as u8;
                 if self.len > 1 && leading >= self.leading && trailing >= self.tailing {
                     self.bstream.write_zero(); // write 10
@@ -208,8 +209,15 @@ impl GorillaDecompactor {
             if l != 6 {
                 return None;
             }
-            let sig_len = u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes());
+            let mut sig_len = u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes());
+            if sig_len == 0 {
+                // there is always at least one significant bit, 0 stands for 64
+                sig_len = value_size as u8;
+            }
 
+            if sig_len + leading > value_size as u8 {
+                return None;
+            }
             let tailing = value_size as u8 - sig_len - leading;
 
             let mut sigbit = vec_with_len(value_size / 8);
-- 
2.43.0


From 69818204b3ef00be1abff7188a6dc86a8011f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 04/52] fix: Gorilla overflow panics on timestamps that go back
 or jump far

---
 src/compaction/gorilla.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 9957bfd..849cd07 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -51,14 +51,14 @@ impl GorillaCompactor {
             // second comporessed timestamp should be delta between the first timestamp in time stream and the aligned start time
             // Again, in Prometheus, Instead of using 14 bits to store. They use the delta between first and second timestamp as the second compressed timestamp
             // Again, we follow prometheus' idea
-            let t_delta = (tp.timestamp - self.t) as i64;
+            let t_delta = tp.timestamp.wrapping_sub(self.t) as i64;
             self.bstream.append_bytes(&t_delta.to_be_bytes(), 0);
             self.compact_value(&tp.value);
 
             self.d = t_delta;
         } else {
-            let t_delta: i64 = (tp.timestamp - self.t) as i64;
-            let dod = t_delta - self.d;
+            let t_delta: i64 = tp.timestamp.wrapping_sub(self.t) as i64;
+            let dod = t_delta.wrapping_sub(self.d);
 
             self.d = t_delta;
 
@@ -252,22 +252,25 @@ impl GorillaDecompactor {
         }
         match range {
             8 => {
-                self.d = i8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                self.d = (i8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64)
+                    .wrapping_add(self.d);
             }
             16 => {
-                self.d = i16::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                self.d = (i16::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64)
+                    .wrapping_add(self.d);
             }
             32 => {
-                self.d = i32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                self.d = (i32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64)
+                    .wrapping_add(self.d);
             }
             64 => {
-                self.d = i64::from_be_bytes(bytes.as_slice().try_into().unwrap()) + self.d;
+                self.d = i64::from_be_bytes(bytes.as_slice().try_into().unwrap()).wrapping_add(self.d);
             }
             _ => {
                 // should never been here.
             }
         }
-        let timestamp = self.t + self.d as u64;
+        let timestamp = self.t.wrapping_add(self.d as u64);
         Some(timestamp)
     }
 }
@@ -310,7 +313,7 @@ impl Iterator for GorillaDecompactor {
             }
 
             let delta = i64::from_be_bytes(delta_v.as_slice().try_into().unwrap());
-            let timestamp = delta + self.t as i64;
+            let timestamp = delta.wrapping_add(self.t as i64);
 
             self.d = delta;
             self.t = timestamp as u64;
@@ -333,7 +336,7 @@ impl Iterator for GorillaDecompactor {
             let mut timestamp = 0;
             if dod_flag_byte & 0b10000000 == 0 {
                 // dod == 0
-                timestamp = self.t + self.d as u64;
+                timestamp = self.t.wrapping_add(self.d as u64);
                 self.source
                     .reset_cursor(self.source.get_cursor() + (4 - l) - 3);
             } else if dod_flag_byte & 0b11000000 == 0b10000000 {
-- 
2.43.0


From 6ebc5939afd3d6ed984070a6164800bc618f38dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 05/52] fix: panic on a bit stream whose count of spare bits is
 beyond its length

---
 src/compaction/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index b3b3fcd..31582fd 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -234,7 +234,7 @@ impl Bstream {
 
     /// How many bit in this bit stream
     pub fn bitlen(&self) -> usize {
-        self.data.len() * 8 - self.remaining as usize
+        (self.data.len() * 8).saturating_sub(self.remaining as usize)
     }
 
     /// append one of the bit stream to another
-- 
2.43.0


From 6e530a452d0a5fba9a4c80650eaaec0504f29926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 06/52] fix: uncompressed time points are read back in records
 of 16 bytes

---
 src/compaction/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index 31582fd..abbf76d 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -165,8 +165,13 @@ impl Decompactor {
             &mut Decompactor::Gorilla(ref decompactor) => Ok(Vec::from_iter(decompactor.clone())),
             &mut Decompactor::None(ref _v) => {
                 let timepoint_size =
-                    std::mem::size_of::<Timestamp>() * 8 + std::mem::size_of::<Value>();
+                    std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
                 let mut res = vec![];
+                if _v.len() % timepoint_size != 0 {
+                    return Err(MonolithErr::InternalErr(
+                        "Wrong number of bytes in uncompressed time points".to_string(),
+                    ));
+                }
                 for _b in _v.chunks(timepoint_size) {
                     let (timestamp_bytes, value_bytes) =
                         _b.split_at(std::mem::size_of::<Timestamp>());
-- 
2.43.0


From ed08a2423865d692471e3afbf585602fcee84793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 07/52] fix: compact_vec without compaction keeps the points it
 is given

---
 src/compaction/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index abbf76d..0b3fa4f 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -88,6 +88,11 @@ impl Compactor {
     /// }
     /// ```
     pub fn compact_vec(&mut self, data: Vec<TimePoint>) -> Vec<u8> {
+        if let &mut Compactor::None(_) = self {
+            for tp in data.iter() {
+                self.compact(tp);
+            }
+        }
         match self {
             &mut Compactor::Simple => unimplemented!(),
             &mut Compactor::Gorilla(ref mut compator) => {
-- 
2.43.0


From 50cb92a2bcd2b88e3bfe65c6ce3234b26e1cf6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 08/52] fix: chunk reports a failed write to a series it
 already holds

---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index e1ead00..c876fed 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -133,7 +133,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         } else {
             //only one, skip the choose process
             self.storage
-                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value);
+                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value)?;
         }
 
         Ok(())
-- 
2.43.0


From a8b8e465e4f1d505d0b3b3b1195abf9140e4bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 09/52] fix: chunk query holds its lock while it reads

---
 src/chunk/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index c876fed..8ddb993 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -145,7 +145,8 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         start_time: Timestamp,
         end_time: Timestamp,
     ) -> Result<Vec<TimeSeries>> {
-        self.mutex
+        let _m = self
+            .mutex
             .read()
             .expect("Poisoned mutex when try to read from chunk");
         if !is_duration_overlap(self.start_time, self.end_time, start_time, end_time) {
-- 
2.43.0


From 89a3667f38ad99f19f80acdc4248b08cf9f0950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 10/52] fix: a series out of the queried range does not hide
 the chunk's other series

---
 src/chunk/chunk.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 8ddb993..e01aaf8 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -156,7 +156,11 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
 
         let mut res = Vec::new();
         for (id, metadata) in candidates {
-            let data = self.storage.read_time_series(id, start_time, end_time)?;
+            let data = match self.storage.read_time_series(id, start_time, end_time) {
+                // a series without points in the range does not hide the others
+                Err(MonolithErr::NotFoundErr) | Err(OutOfRangeErr(_, _)) => continue,
+                res => res?,
+            };
             if data.len() == 0 {
                 continue; //skip empty series
             }
-- 
2.43.0


From 79fb062d2de5e4eb59a2576c4347a24a6655fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 11/52] fix: chunk takes points on its bounds, as batch writes
 and queries do

---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index e01aaf8..49ccde0 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -179,7 +179,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
     }
 
     fn is_in_range(&self, timestamp: &Timestamp) -> bool {
-        return self.start_time < *timestamp && self.end_time > *timestamp;
+        return self.start_time <= *timestamp && self.end_time >= *timestamp;
     }
 }
 
-- 
2.43.0


From ec483b737a19e3b3db87245c4327c404a96be36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 12/52] fix: trimming keeps every point in range, whatever the
 bounds and duplicates

---
 src/storage/common.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/storage/common.rs b/src/storage/common.rs
index 1fbdead..57d18a2 100644
--- a/src/storage/common.rs
+++ b/src/storage/common.rs
@@ -35,16 +35,10 @@ pub trait Storage: Sized + HasTypeName {
         end_time: Timestamp,
     ) -> Result<Vec<TimePoint>> {
         //series should already sorted
-        let left = match series.binary_search(&TimePoint::new(start_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx,
-        };
-        let right = match series.binary_search(&TimePoint::new(end_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx - 1,
-        };
-        let res = &series[left..=right];
-        Ok(Vec::from(res))
+        Ok(series
+            .into_iter()
+            .filter(|tp| start_time <= tp.timestamp && tp.timestamp <= end_time)
+            .collect())
     }
 }
 
-- 
2.43.0


From b15b5b6ae28d633f2c40ae15d338490fe7b1ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 13/52] fix: sled storage keeps series ordered and reports
 failed appends

---
 src/storage/sled_storage.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index cac82a2..bdecce6 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -69,8 +69,22 @@ impl Storage for SledStorage {
         let mut value = KvStorageProcessor::encode_time_point(timestamp, value)?;
         if let Some(current_val) = tree.get(key_name.clone())? {
             let mut current_val_bytes = current_val.to_vec();
+            // reads rely on the order of the series: late points go before the newer ones
+            let point_size = std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
+            let mut position = current_val_bytes.len();
+            while position >= point_size
+                && KvStorageProcessor::decode_time_point(
+                    &current_val_bytes[position - point_size..position],
+                )?
+                .timestamp
+                    > timestamp
+            {
+                position -= point_size;
+            }
+            let newer = current_val_bytes.split_off(position);
             current_val_bytes.append(&mut value);
-            tree.set(key_name.clone(), current_val_bytes);
+            current_val_bytes.extend_from_slice(&newer[..]);
+            tree.set(key_name.clone(), current_val_bytes)?;
         } else {
             tree.set(key_name.clone(), value)?;
         }
-- 
2.43.0


From c3feebd6fdea89ef83f38bb3fb002fd80903a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 14/52] fix: sled indexer finds nothing for a label no series
 has

---
 src/indexer/sled_indexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 4736f58..d2e230b 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -87,8 +87,9 @@ impl Indexer for SledIndexer {
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         let mut ts_vec = Vec::new();
         for label in labels.vec() {
-            if let Some(ts) = self.get_id(label)? {
-                ts_vec.push(ts as Vec<TimeSeriesId>);
+            match self.get_id(label)? {
+                Some(ts) => ts_vec.push(ts as Vec<TimeSeriesId>),
+                None => return Ok(Vec::new()), // no series has this label
             }
         }
 
-- 
2.43.0


From 440f54502faed44c7e993e81cdf2fdeac90f438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 15/52] fix: sled indexer reports failed writes of an index

---
 src/indexer/sled_indexer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index d2e230b..1940f76 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -118,13 +118,13 @@ impl Indexer for SledIndexer {
                 "Duplicate label => id pair found in storage".to_string(),
             ));
         }
-        tree.set(label_key, format!("{}", time_series_id).into_bytes());
+        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
 
         // from time series to label set
         tree.set(
             KvIndexerProcessor::encode_time_series_id(time_series_id),
             KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-        );
+        )?;
 
         // from label to time series ids
         let keys: Vec<String> = labels
@@ -140,8 +140,8 @@ impl Indexer for SledIndexer {
                     format!("{},{}", val_str, time_series_id)
                 }
             };
-            tree.set(&key, val.into_bytes());
-            tree.flush();
+            tree.set(&key, val.into_bytes())?;
+            tree.flush()?;
         }
 
         Ok(())
-- 
2.43.0


From 048e3c28557e3cb012bff55f612a18394916a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 16/52] fix: TiKV indexer finds nothing for a label no series
 has and reports failed reads

---
 src/indexer/tikv_indexer.rs | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index e162075..6e36484 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -68,26 +68,19 @@ impl Indexer for TiKvIndexer {
     }
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
-        // Get raw value from tikv
-        let query_res = labels
-            .vec()
-            .into_iter()
-            .map(|label| {
-                self.add_indexer_id(
-                    KvIndexerProcessor::encode_label(label)
-                        .into_bytes()
-                        .as_mut(),
-                )
-            })
-            .map(|key| self.client.get(key)) //todo: error handling
-            .filter(|res| res.is_ok())
-            .map(|res| res.unwrap())
-            .filter(|res| res.is_some())
-            .map(|res| res.unwrap())
-            .collect::<Vec<Vec<u8>>>();
-        // convert into time series id
         let mut time_series_ids: Vec<Vec<TimeSeriesId>> = vec![];
-        for val in query_res {
+        for label in labels.vec() {
+            // Get raw value from tikv
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_label(label)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            let val = match self.client.get(key)? {
+                Some(val) => val,
+                None => return Ok(Vec::new()), // no series has this label
+            };
+            // convert into time series id
             let ids = val
                 .chunks(std::mem::size_of::<TimeSeriesId>())
                 .map(|raw| {
-- 
2.43.0


From 3ce631a7d9cfb04a58bbc68cdebaba2b3463dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 17/52] fix: TiKV indexer reports failed writes of an index

---
 src/indexer/tikv_indexer.rs | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 6e36484..7ca837b 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -115,7 +115,7 @@ impl Indexer for TiKvIndexer {
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-            );
+            )?;
         }
 
         {
@@ -124,34 +124,21 @@ impl Indexer for TiKvIndexer {
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 Vec::from(&time_series_id.to_be_bytes()[..]),
-            );
+            )?;
         }
 
         {
             // Create Reverse Search
-            labels
-                .vec()
-                .iter()
-                .map(|label| {
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_label(label)
-                            .into_bytes()
-                            .as_mut(),
-                    )
-                })
-                .map(|key| (key.clone(), self.client.get(key.to_vec())))
-                .filter(|(_key, res)| res.is_ok())
-                .map(|(key, res)| match res.unwrap() {
-                    Some(mut val) => {
-                        val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
-                        self.client.set(key.clone(), val);
-                    }
-                    None => {
-                        self.client
-                            .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..]));
-                    }
-                })
-                .collect::<Vec<()>>();
+            for label in labels.vec() {
+                let key = self.add_indexer_id(
+                    KvIndexerProcessor::encode_label(label)
+                        .into_bytes()
+                        .as_mut(),
+                );
+                let mut val = self.client.get(key.clone())?.unwrap_or(Vec::new());
+                val.extend_from_slice(&time_series_id.to_be_bytes()[..]);
+                self.client.set(key, val)?;
+            }
         }
 
         Ok(())
-- 
2.43.0


From eb13524ba0009a43d48c906af48716e2e6ff7582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 18/52] fix: TiKV indexer reports series whose labels cannot be
 read

---
 src/indexer/tikv_indexer.rs | 48 ++++++++++++-------------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 7ca837b..02a0a32 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -32,39 +32,21 @@ impl Indexer for TiKvIndexer {
     ) -> Result<Vec<(TimeSeriesId, Labels)>> {
         let ids = self.get_series_id_contains_labels(labels.clone())?;
 
-        //todo: refactor this.
-        Ok(ids
-            .iter()
-            // Convert into keys
-            .map(|id| {
-                (
-                    *id,
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_time_series_id(*id)
-                            .into_bytes()
-                            .as_mut(),
-                    ),
-                )
-            })
-            // Get raw value from db store
-            .map(|(id, key)| (id, self.client.get(key)))
-            // Choose the valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap the valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            // Choose the one with value
-            .filter(|(_id, option)| option.is_some())
-            // Unwrap value
-            .map(|(id, option)| (id, option.unwrap()))
-            // Convert Vec<u8> into String
-            .map(|(id, raw)| (id, String::from_utf8_lossy(raw.as_slice()).to_string()))
-            // Convert String into labels
-            .map(|(id, raw)| (id, KvIndexerProcessor::decode_labels(raw, false)))
-            // Choose valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            .collect())
+        let mut res = Vec::new();
+        for id in ids {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_time_series_id(id)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            if let Some(raw) = self.client.get(key)? {
+                res.push((
+                    id,
+                    KvIndexerProcessor::decode_labels(String::from_utf8(raw)?, false)?,
+                ));
+            }
+        }
+        Ok(res)
     }
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
-- 
2.43.0


From 21576102dc99d5ed4071f592ae84a1d575b1314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 19/52] fix: an index cut short leaves no series that is
 written to but never found

---
 src/indexer/sled_indexer.rs |  6 +++---
 src/indexer/tikv_indexer.rs | 19 ++++++++++---------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 1940f76..ebc8f06 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -110,7 +110,6 @@ impl Indexer for SledIndexer {
     fn create_index(&self, labels: Labels, time_series_id: u64) -> Result<()> {
         let tree = &self.storage;
 
-        // from label set to time series id
         let label_key = KvIndexerProcessor::encode_labels(&labels, true);
         if tree.contains_key(label_key.clone())? {
             //duplicate label -> id pair
@@ -118,8 +117,6 @@ impl Indexer for SledIndexer {
                 "Duplicate label => id pair found in storage".to_string(),
             ));
         }
-        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
-
         // from time series to label set
         tree.set(
             KvIndexerProcessor::encode_time_series_id(time_series_id),
@@ -144,6 +141,9 @@ impl Indexer for SledIndexer {
             tree.flush()?;
         }
 
+        // from label set to time series id, last: a series that can be written to can be found
+        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
+
         Ok(())
     }
 }
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 02a0a32..bb621a9 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -100,15 +100,6 @@ impl Indexer for TiKvIndexer {
             )?;
         }
 
-        {
-            //Create map between full label set to time series id
-            let key = KvIndexerProcessor::encode_labels(&labels, true);
-            self.client.set(
-                self.add_indexer_id(key.into_bytes().as_mut()),
-                Vec::from(&time_series_id.to_be_bytes()[..]),
-            )?;
-        }
-
         {
             // Create Reverse Search
             for label in labels.vec() {
@@ -123,6 +114,16 @@ impl Indexer for TiKvIndexer {
             }
         }
 
+        {
+            //Create map between full label set to time series id, last: a series that can be
+            //written to can be found
+            let key = KvIndexerProcessor::encode_labels(&labels, true);
+            self.client.set(
+                self.add_indexer_id(key.into_bytes().as_mut()),
+                Vec::from(&time_series_id.to_be_bytes()[..]),
+            )?;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 8c702572f4ce834e3bf9211525c365e160b4ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 20/52] fix: TiKV component identifiers are handed out and
 stored as they are read back

---
 src/backend/tikv.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index 3771225..30bb6de 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -20,16 +20,16 @@ pub trait TiKvRawBackend: Send + Sync {
             id
         });
         if is_indexer {
-            let mut indexer_id = Uuid::new_v4().as_bytes().to_vec();
-            indexer_id.append(value[..16].to_vec().as_mut());
-            self.set(chunk_identifier.clone(), indexer_id.clone());
+            let indexer_id = Uuid::new_v4().as_bytes().to_vec();
+            let mut res = indexer_id.clone();
+            res.extend_from_slice(&value[16..]);
+            self.set(chunk_identifier.clone(), res)?;
             Ok(indexer_id)
         } else {
-            let mut storage_id = Uuid::new_v4().as_bytes().to_vec();
-            let mut res = vec![];
-            res.append(value[16..].to_vec().as_mut());
-            res.append(storage_id.as_mut());
-            self.set(chunk_identifier.clone(), res);
+            let storage_id = Uuid::new_v4().as_bytes().to_vec();
+            let mut res = value[..16].to_vec();
+            res.extend_from_slice(&storage_id[..]);
+            self.set(chunk_identifier.clone(), res)?;
             Ok(storage_id)
         }
     }
-- 
2.43.0


From a85df642300239f0674182d16e9a6df4d4d6177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 21/52] fix: label sets of different lengths are not equal

---
 src/common/label.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/common/label.rs b/src/common/label.rs
index 47151f0..771601f 100644
--- a/src/common/label.rs
+++ b/src/common/label.rs
@@ -98,12 +98,7 @@ impl Eq for Labels {}
 
 impl PartialEq for Labels {
     fn eq(&self, other: &Self) -> bool {
-        for i in 0..self.len() {
-            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
-                return false;
-            }
-        }
-        true
+        self.0 == other.0
     }
 }
 
-- 
2.43.0


From 02b5ddbc412e37e7d7fef62fb8be32f3e8214a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 22/52] fix: time points with different values are not equal

---
 src/common/time_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/time_point.rs b/src/common/time_point.rs
index 2150cd9..27c25cb 100644
--- a/src/common/time_point.rs
+++ b/src/common/time_point.rs
@@ -22,7 +22,7 @@ impl Eq for TimePoint {}
 impl PartialEq for TimePoint {
     fn eq(&self, other: &Self) -> bool {
         self.timestamp.eq(&other.timestamp)
-            && (self.value - other.value < F64_MARGIN || other.value - self.value < F64_MARGIN)
+            && (self.value - other.value < F64_MARGIN && other.value - self.value < F64_MARGIN)
     }
 }
 
-- 
2.43.0


From 4362cdbbeb88307c289d9328b02c9ff0b050e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 23/52] fix: queries see a chunk swap as one step

---
 src/db.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index a6d4548..a681f89 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -211,10 +211,11 @@ where
     ) -> Result<LabelPointPairs> {
         let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
         let res_ref = &mut res;
+        // hold the current chunk until the end, so that a swap comes before or after this query
+        let _c = &self.current_chuck.read().unwrap();
         //insert in reverse time order in order to quickly append vec
         {
             //check current chunk
-            let _c = &self.current_chuck.read().unwrap();
             let _res = _c.query(labels.clone(), start_time, end_time);
             if _res.is_ok() {
                 for ref t in _res.unwrap() {
@@ -307,12 +308,9 @@ where
         );
 
         let chunk = Chunk::<S, I>::new(storage, indexer, &chunk_opt);
-        {
-            let stale = self.current_chuck.read().unwrap();
-            self.secondary_chunks.write().unwrap().push(stale.clone());
-        }
         {
             let mut current = self.current_chuck.write().unwrap(); //will also block all read util swap finish
+            self.secondary_chunks.write().unwrap().push(current.clone());
             let (_, end_time) = current.start_end_time();
             info!("The old chunk with end time {} is closing", end_time);
             current.close(); //close the stale one
-- 
2.43.0


From 5b621944c5a5653a2af5839cad7a163d8193e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 24/52] fix: the indexer's configuration is written to the
 database directory

---
 src/db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.rs b/src/db.rs
index a681f89..17f941c 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -56,7 +56,7 @@ where
 
         // write custom config to db config
         storage_builder.write_config(&ops.base_dir)?;
-        storage_builder.write_config(&ops.base_dir)?;
+        indexer_builder.write_config(&ops.base_dir)?;
 
         let chunk_size = ops.chunk_size.as_millis() as Timestamp;
         let current_time = get_current_timestamp();
-- 
2.43.0


From bed650374ea2bb36e71bc491e3180aaa6105f57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 25/52] fix: a request that cannot be decompressed is answered,
 not a panic

---
 src/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 9293907..1a8c006 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -65,9 +65,20 @@ where
     fn _process(server: MonolithServer<S, I>, mut request: Request) {
         //Convert request content to protobuf coded format
         let mut content = Vec::new();
-        request.as_reader().read_to_end(&mut content).unwrap();
+        if let Err(err) = request.as_reader().read_to_end(&mut content) {
+            error!("Cannot read request, {}", err);
+            request.respond(Response::empty(500));
+            return;
+        }
         let mut decoder = snap::raw::Decoder::new();
-        let _content = decoder.decompress_vec(content.as_slice()).unwrap();
+        let _content = match decoder.decompress_vec(content.as_slice()) {
+            Ok(_content) => _content,
+            Err(err) => {
+                error!("Cannot decompress request, {}", err);
+                request.respond(Response::empty(500));
+                return;
+            }
+        };
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
 
-- 
2.43.0


From 2d82b8311a987e5862972005f6cd16820f564ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 26/52] fix: a malformed write request is not acknowledged

---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 1a8c006..7bd7a84 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -124,7 +124,11 @@ where
             }
             (_, write_path) if write_path == server.write_path => {
                 let mut write_req = WriteRequest::new();
-                write_req.merge_from(&mut input_stream);
+                if let Err(err) = write_req.merge_from(&mut input_stream) {
+                    error!("Cannot read content from write request {}", err);
+                    request.respond(Response::empty(500));
+                    return;
+                }
                 match server.write(write_req) {
                     Ok(_) => {
                         request.respond(Response::empty(200));
-- 
2.43.0


From 3e1be8aca02c7cf62b26ddc576c7ff1d926def1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 27/52] fix: labels with commas, equal signs or backslashes are
 told apart and read back

---
 src/indexer/sled_indexer.rs | 67 ++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index ebc8f06..a1ab2f7 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -255,8 +255,49 @@ mod tests {
 pub(crate) struct KvIndexerProcessor {}
 
 impl KvIndexerProcessor {
+    /// Put a backslash in front of separators and of backslashes
+    fn escape(raw: &str, separators: &[char]) -> String {
+        let mut res = String::new();
+        for c in raw.chars() {
+            if c == '\\' || separators.contains(&c) {
+                res.push('\\');
+            }
+            res.push(c);
+        }
+        res
+    }
+
+    fn unescape(escaped: &str) -> String {
+        let mut res = String::new();
+        let mut chars = escaped.chars();
+        while let Some(c) = chars.next() {
+            if c == '\\' {
+                res.extend(chars.next());
+            } else {
+                res.push(c);
+            }
+        }
+        res
+    }
+
+    /// Index of the first separator that is not escaped
+    fn find_separator(escaped: &str, separator: char) -> Option<usize> {
+        let mut is_escaped = false;
+        for (idx, c) in escaped.char_indices() {
+            if !is_escaped && c == separator {
+                return Some(idx);
+            }
+            is_escaped = !is_escaped && c == '\\';
+        }
+        None
+    }
+
     fn _encode_label(label: &Label) -> String {
-        format!("{}={}", label.key(), label.value())
+        format!(
+            "{}={}",
+            KvIndexerProcessor::escape(label.key(), &[',', '=']),
+            KvIndexerProcessor::escape(label.value(), &[','])
+        )
     }
 
     /// encode single label as key
@@ -298,22 +339,22 @@ impl KvIndexerProcessor {
         if is_key {
             _labels_str.replace_range(..LABEL_PREFIX.len(), "");
         }
-        let pairs: Vec<&str> = _labels_str.split(",").collect();
         let mut res = Vec::new();
-        for pair in pairs {
+        let mut rest = _labels_str.as_str();
+        while !rest.is_empty() {
+            let comma_idx = KvIndexerProcessor::find_separator(rest, ',').unwrap_or(rest.len());
+            let pair = &rest[..comma_idx];
+            rest = rest.get(comma_idx + 1..).unwrap_or("");
             // Per Prometheus doc https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels
             // Label name must match regex [a-zA-Z_][a-zA-Z0-9_]*
             // Thus, we can always use the first = to split label name from label value
-            let equal_idx = pair.find("=").ok_or(MonolithErr::InternalErr(
-                "Cannot parse label data".to_string(),
-            ))?;
-            let (key, value_with_equal) = pair.split_at(equal_idx);
-            let value = {
-                let mut s = String::from(value_with_equal);
-                s.remove(0);
-                s
-            };
-            let label = Label::from_key_value(key, value.as_str());
+            let equal_idx = KvIndexerProcessor::find_separator(pair, '=').ok_or(
+                MonolithErr::InternalErr("Cannot parse label data".to_string()),
+            )?;
+            let label = Label::new(
+                KvIndexerProcessor::unescape(&pair[..equal_idx]),
+                KvIndexerProcessor::unescape(&pair[equal_idx + 1..]),
+            );
             res.push(label)
         }
         Ok(Labels::from_vec(res))
-- 
2.43.0


From db4bbd0886b85a84338c914b3cbef9a47983413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 28/52] fix: the key of a label set is never that of a single
 label

---
 src/indexer/sled_indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index a1ab2f7..212e955 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -325,6 +325,10 @@ impl KvIndexerProcessor {
         }
         res.pop(); //remove last ,
         if with_prefix {
+            if res.starts_with('R') {
+                // LR is the prefix of single labels
+                res.insert(0, '\\');
+            }
             res.insert_str(0, LABEL_PREFIX);
         }
         res
-- 
2.43.0


From 78fbee87c34c9ab01760a0d4dc97712b85f40888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 29/52] fix: a query that cannot be answered in full is an
 error, not an empty answer

---
 src/db.rs     | 51 ++++++++++++++++++++++++---------------------------
 src/server.rs | 19 +++++++++----------
 2 files changed, 33 insertions(+), 37 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 17f941c..f381346 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -216,15 +216,16 @@ where
         //insert in reverse time order in order to quickly append vec
         {
             //check current chunk
-            let _res = _c.query(labels.clone(), start_time, end_time);
-            if _res.is_ok() {
-                for ref t in _res.unwrap() {
-                    res_ref.insert(
-                        t.meta_data().clone(),
-                        t.time_points().clone().into_iter().rev().collect(),
-                    );
+            match _c.query(labels.clone(), start_time, end_time) {
+                Err(MonolithErr::OutOfRangeErr(_, _)) => {}
+                _res => {
+                    for ref t in _res? {
+                        res_ref.insert(
+                            t.meta_data().clone(),
+                            t.time_points().clone().into_iter().rev().collect(),
+                        );
+                    }
                 }
-            } else {
             }
         };
         {
@@ -232,25 +233,21 @@ where
             let chunks = &self.secondary_chunks.read().unwrap();
             for _c in chunks.iter().rev() {
                 if _c.is_with_range(start_time, end_time) {
-                    let _res = _c.query(labels.clone(), start_time, end_time);
-                    if _res.is_ok() {
-                        for ref t in _res.unwrap() {
-                            let mut current_val = t
-                                .time_points()
-                                .clone()
-                                .into_iter()
-                                .rev()
-                                .collect::<Vec<TimePoint>>();
-                            match res_ref.get_mut(t.meta_data()) {
-                                Some(val) => {
-                                    val.append(&mut current_val);
-                                }
-                                None => {
-                                    res_ref.insert(t.meta_data().clone(), current_val);
-                                }
-                            };
-                        }
-                    } else {
+                    for ref t in _c.query(labels.clone(), start_time, end_time)? {
+                        let mut current_val = t
+                            .time_points()
+                            .clone()
+                            .into_iter()
+                            .rev()
+                            .collect::<Vec<TimePoint>>();
+                        match res_ref.get_mut(t.meta_data()) {
+                            Some(val) => {
+                                val.append(&mut current_val);
+                            }
+                            None => {
+                                res_ref.insert(t.meta_data().clone(), current_val);
+                            }
+                        };
                     }
                 };
             }
diff --git a/src/server.rs b/src/server.rs
index 7bd7a84..bd1276c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -152,7 +152,8 @@ where
                     .queries
                     .iter()
                     .map(|q| {
-                        self.db
+                        Ok(self
+                            .db
                             .query(
                                 Labels::from_vec(
                                     q.matchers
@@ -162,21 +163,19 @@ where
                                 ),
                                 q.start_timestamp_ms as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
-                            )
-                            .ok()
-                            .unwrap_or(Vec::new())
+                            )?
                             .iter()
                             .map(crate::proto::TimeSeries::from)
-                            .collect::<Vec<crate::proto::TimeSeries>>()
+                            .collect::<Vec<crate::proto::TimeSeries>>())
                     })
-                    .map(|v: Vec<crate::proto::TimeSeries>| -> QueryResult {
-                        QueryResult {
-                            timeseries: RepeatedField::from(v),
+                    .map(|v: Result<Vec<crate::proto::TimeSeries>>| {
+                        Ok(QueryResult {
+                            timeseries: RepeatedField::from(v?),
                             unknown_fields: Default::default(),
                             cached_size: Default::default(),
-                        }
+                        })
                     })
-                    .collect::<Vec<crate::proto::QueryResult>>(),
+                    .collect::<Result<Vec<crate::proto::QueryResult>>>()?,
             ),
             unknown_fields: Default::default(),
             cached_size: Default::default(),
-- 
2.43.0


From 1f93786f947f0e2d539c0aa75f563c5a320cbb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 30/52] fix: a directory without chunk metadata does not keep
 the database from opening

---
 src/db.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/db.rs b/src/db.rs
index f381346..dfb70d3 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -147,7 +147,11 @@ where
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
                     let path = PathBuf::from(path_str.clone());
-                    let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
+                    let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
+                        // not a chunk
+                        Err(MonolithErr::NotFoundErr) => continue,
+                        res => res?,
+                    };
                     let current_time = get_current_timestamp();
                     chunk_opts.start_time = Some(start_time);
                     // reset end time is necessary
-- 
2.43.0


From 2fb913f5b94672d9e0b31130195bc3b439094eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 31/52] fix: cached WAL entries are written whole, with header
 and checksum

---
 src/wal/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index dd31035..d2339f7 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -56,7 +56,7 @@ impl<W: Write> Write for Segment<W> {
 
         if remaining.len() > 0 {
             for entry in remaining {
-                self.write(entry.content.as_slice())?;
+                self.write(entry.get_bytes().as_slice())?;
             }
         }
 
-- 
2.43.0


From 3269a57f3ef5187b1b2a0fa8ea4b04f421adb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 32/52] fix: WAL segments flushed by number of entries take
 entries and write no others

---
 src/wal/segment.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index d2339f7..db44b70 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -35,7 +35,7 @@ impl<W: Write> Write for Segment<W> {
             } => {
                 *idx = 0;
                 let _cache = cache.clone();
-                *cache = vec![Entry::default(); *size];
+                *cache = Vec::with_capacity(*size);
                 _cache
             }
             &mut FlushCache::TimeBased { .. } => {
@@ -117,9 +117,9 @@ impl<W> Segment<W>
                 ref mut idx,
                 ref mut cache,
             } => {
-                cache[*idx] = entry;
+                cache.push(entry);
                 *idx += 1;
-                if idx == size {
+                if *idx >= *size {
                     self.flush();
                 }
             }
-- 
2.43.0


From 9fc2887ab7ac8c34e148904a7a9e17218eea3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 33/52] fix: flushing a time based WAL segment writes what it
 has cached

---
 src/wal/segment.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index db44b70..803b269 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -38,9 +38,8 @@ impl<W: Write> Write for Segment<W> {
                 *cache = Vec::with_capacity(*size);
                 _cache
             }
-            &mut FlushCache::TimeBased { .. } => {
-                // fixme and above
-                vec![]
+            &mut FlushCache::TimeBased { ref mut cache, .. } => {
+                std::mem::replace(&mut *cache.lock().unwrap(), vec![])
             }
             &mut FlushCache::SizeBased {
                 ref limit,
-- 
2.43.0


From c73f7f8f27b581b0e1034c5fe231f8024a3563b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 34/52] fix: closing a WAL segment flushes the entries it has
 cached

---
 src/wal/segment.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 803b269..f05d0c4 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -100,8 +100,10 @@ impl<W> Segment<W>
 
     /// flush all data and close the file
     pub fn close(&mut self) -> Result<()> {
+        self.flush()?;
         let _crc = self.crc.finish();
-        self.write(&_crc.to_be_bytes())?; // append crc result
+        self.write_all(&_crc.to_be_bytes())?; // append crc result
+        self.writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From fcab1e7a5d6f6804316fcba7d9b65cd40ec9b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 35/52] fix: WAL segments survive short writes and report
 failed ones

---
 src/wal/segment.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index f05d0c4..27195d9 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -21,8 +21,9 @@ pub struct Segment<W: Write> {
 
 impl<W: Write> Write for Segment<W> {
     fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
-        self.crc.write(bytes); // update crc
-        self.writer.write(bytes)
+        let written = self.writer.write(bytes)?;
+        self.crc.write(&bytes[..written]); // update crc
+        Ok(written)
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
@@ -55,7 +56,7 @@ impl<W: Write> Write for Segment<W> {
 
         if remaining.len() > 0 {
             for entry in remaining {
-                self.write(entry.get_bytes().as_slice())?;
+                self.write_all(entry.get_bytes().as_slice())?;
             }
         }
 
@@ -69,8 +70,8 @@ impl<W> Segment<W>
 {
     pub fn new(flush_policy: FlushPolicy, mut writer: W) -> Result<Segment<W>> {
         // write magic number. Note that we don't include this when compute CRC
-        writer.write(&WAL_MAGIC_NUMBER.to_be_bytes()[..]);
-        writer.flush();
+        writer.write_all(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;
+        writer.flush()?;
 
         Ok(Segment {
             writer,
@@ -110,8 +111,8 @@ impl<W> Segment<W>
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
         match &mut self.cache {
             &mut FlushCache::None => {
-                self.write(entry.get_bytes().as_slice())?;
-                self.flush();
+                self.write_all(entry.get_bytes().as_slice())?;
+                self.flush()?;
             }
             &mut FlushCache::NumBased {
                 limit: ref size,
@@ -121,7 +122,7 @@ impl<W> Segment<W>
                 cache.push(entry);
                 *idx += 1;
                 if *idx >= *size {
-                    self.flush();
+                    self.flush()?;
                 }
             }
             &mut FlushCache::TimeBased { ref mut cache, .. } => {
@@ -135,7 +136,7 @@ impl<W> Segment<W>
                 let entry_len = entry.len();
                 cache.push(entry);
                 if *size + entry_len >= *limit {
-                    self.flush();
+                    self.flush()?;
                 } else {
                     *size += entry_len;
                 }
-- 
2.43.0


From b1162d8ef40d7a10cb096b0c1a61beaad1fcdcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 36/52] fix: WAL entries beyond the length field are refused

---
 src/wal/segment.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 27195d9..0704362 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -1,5 +1,5 @@
 use crate::wal::{Entry, FlushCache, FlushPolicy, WalErr, WAL_MAGIC_NUMBER};
-use crate::Result;
+use crate::{MonolithErr, Result};
 use std::fs::File;
 use std::hash::Hasher;
 use std::io::Write;
@@ -109,6 +109,12 @@ impl<W> Segment<W>
     }
 
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
+        if entry.content.len() > u16::max_value() as usize {
+            // the length field of an entry has two bytes
+            return Err(MonolithErr::WalErr(WalErr::InternalError(
+                "Entry is too long".to_string(),
+            )));
+        }
         match &mut self.cache {
             &mut FlushCache::None => {
                 self.write_all(entry.get_bytes().as_slice())?;
-- 
2.43.0


From 868b39fad36625ebfffd42c71650bb904796e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 37/52] fix: length of a WAL entry counts its length field

---
 src/wal/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 203a906..ed552fd 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -64,7 +64,7 @@ impl Entry {
     }
 
     pub fn len(&self) -> usize {
-        8 + 1 + self.content.len() + 4 // seq_id + entry_type + content + crc32
+        8 + 1 + 2 + self.content.len() + 4 // seq_id + entry_type + len + content + crc32
     }
 
     pub fn get_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From a86ca6c3ecfee08518476ea65f78d105b1289a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 38/52] verif: smaller database hook

---
 src/db.rs | 35 -----------------------------------
 1 file changed, 35 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index dfb70d3..2457113 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -377,42 +377,7 @@ where
     S: Storage + Send + Sync + 'static,
     I: Indexer + Send + Sync + 'static,
 {
-    pub fn verif_from_parts(
-        current: Arc<Chunk<S, I>>,
-        secondary: Vec<Arc<Chunk<S, I>>>,
-        options: DbOpts,
-        storage_builder: Box<dyn Builder<S> + Sync + Send>,
-        indexer_builder: Box<dyn Builder<I> + Sync + Send>,
-    ) -> Arc<Self> {
-        Arc::new(MonolithDb {
-            current_chuck: RwLock::new(current),
-            secondary_chunks: RwLock::new(secondary),
-            options,
-            storage_builder,
-            indexer_builder,
-        })
-    }
-
     pub fn verif_swap(&self, start_time: Timestamp) -> Result<()> {
         self.swap(start_time)
     }
-
-    pub fn verif_chunks(&self) -> (Arc<Chunk<S, I>>, Vec<Arc<Chunk<S, I>>>) {
-        (
-            self.current_chuck.read().unwrap().clone(),
-            self.secondary_chunks.read().unwrap().clone(),
-        )
-    }
-
-    pub fn verif_read_existing_chunk(
-        dir: &Path,
-        storage_builder: &Box<dyn Builder<S> + Sync + Send>,
-        indexer_builder: &Box<dyn Builder<I> + Sync + Send>,
-    ) -> Result<Vec<Arc<Chunk<S, I>>>> {
-        Self::read_existing_chunk(dir, storage_builder, indexer_builder)
-    }
-
-    pub fn verif_read_or_create_metadata(base_dir: &Path, m: &DbMetadata) -> Result<()> {
-        Self::read_or_create_metadata(base_dir, m)
-    }
 }
-- 
2.43.0


From 1fb4e5d80fea30aaa3ff3602eb220ddf81894ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 39/52] fix: unreadable database metadata is reported, not
 overwritten

---
 src/db.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/db.rs b/src/db.rs
index 2457113..a8eaff6 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -119,6 +119,10 @@ where
                 return Err(MonolithErr::OptionErr);
             }
         } else {
+            if base_dir.join(DB_METADATA_FILENAME).exists() {
+                // there is a metadata file, but it cannot be read: do not overwrite it
+                content?;
+            }
             let file = File::create(base_dir.join(DB_METADATA_FILENAME))?;
             let writer = BufWriter::new(file);
             serde_json::to_writer(writer, db_metadata)?;
-- 
2.43.0


From cb8e997b169965202726d7cd51e75a61550bc6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 40/52] fix: unreadable chunk metadata is reported, the chunk
 not left out

---
 src/chunk/chunk.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 49ccde0..20db12e 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -37,6 +37,10 @@ impl ChunkOpts {
             let opts: ChunkOpts = serde_json::from_str(content.unwrap().as_str())?;
             Ok(opts)
         } else {
+            if dir.join(CHUNK_METADATA_FILENAME).exists() {
+                // there is an option file, but it cannot be read: the chunk is not just missing
+                content?;
+            }
             error!(
                 "Cannot open option file from dir {}",
                 dir.as_os_str().to_str().unwrap_or("<unreadable path>")
-- 
2.43.0


From 0d8721321443e104be9db3b62b4409b68075e396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 41/52] verif: the harnesses bring their own locks, hooks leave
 std's alone

---
 src/chunk/chunk.rs          |  3 --
 src/db.rs                   |  3 --
 src/indexer/mod.rs          |  5 --
 src/indexer/sled_indexer.rs | 25 ----------
 src/storage/mod.rs          |  5 --
 src/storage/sled_storage.rs | 13 -----
 src/verif.rs                | 96 +------------------------------------
 7 files changed, 1 insertion(+), 149 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 20db12e..172f5cf 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -11,10 +11,7 @@ use crate::MonolithErr::OutOfRangeErr;
 use crate::indexer::Indexer;
 use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicBool, Ordering};
-#[cfg(not(monolith_verif))]
 use std::sync::RwLock;
-#[cfg(monolith_verif)]
-use crate::verif::RwLock;
 
 use serde::{Deserialize, Serialize};
 use std::fs;
diff --git a/src/db.rs b/src/db.rs
index a8eaff6..67ed4a5 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -2,10 +2,7 @@ use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::channel;
 use std::sync::Arc;
-#[cfg(not(monolith_verif))]
 use std::sync::RwLock;
-#[cfg(monolith_verif)]
-use crate::verif::RwLock;
 use std::time::Duration;
 use std::{fs, thread};
 
diff --git a/src/indexer/mod.rs b/src/indexer/mod.rs
index cf6056c..7efdded 100644
--- a/src/indexer/mod.rs
+++ b/src/indexer/mod.rs
@@ -2,11 +2,6 @@ mod common;
 mod sled_indexer;
 mod tikv_indexer;
 
-#[cfg(monolith_verif)]
-pub mod verif {
-    pub use super::sled_indexer::verif_kv::*;
-}
-
 pub use common::*;
 pub use sled_indexer::SledIndexer;
 pub use sled_indexer::SledIndexerBuilder;
diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 212e955..a6358f2 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -374,28 +374,3 @@ impl KvIndexerProcessor {
         Ok(_id_str.parse::<TimeSeriesId>()?)
     }
 }
-
-#[cfg(monolith_verif)]
-pub mod verif_kv {
-    use super::*;
-
-    pub fn encode_label(label: &Label) -> String {
-        KvIndexerProcessor::encode_label(label)
-    }
-
-    pub fn encode_labels(labels: &Labels, with_prefix: bool) -> String {
-        KvIndexerProcessor::encode_labels(labels, with_prefix)
-    }
-
-    pub fn decode_labels(labels: String, is_key: bool) -> Result<Labels> {
-        KvIndexerProcessor::decode_labels(labels, is_key)
-    }
-
-    pub fn encode_time_series_id(id: TimeSeriesId) -> String {
-        KvIndexerProcessor::encode_time_series_id(id)
-    }
-
-    pub fn decode_time_series_id(id: String) -> Result<TimeSeriesId> {
-        KvIndexerProcessor::decode_time_series_id(id)
-    }
-}
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9b65bbd..f3b3e61 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -2,11 +2,6 @@ mod common;
 mod sled_storage;
 mod tikv_storage;
 
-#[cfg(monolith_verif)]
-pub mod verif {
-    pub use super::sled_storage::verif_kv::*;
-}
-
 pub use common::*;
 pub use sled_storage::{SledStorage, SledStorageBuilder};
 pub use tikv_storage::{TiKvStorage, TiKvStorageBuilder};
diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index bdecce6..259112b 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -183,16 +183,3 @@ impl SledStorageBuilder {
         SledStorageBuilder {}
     }
 }
-
-#[cfg(monolith_verif)]
-pub mod verif_kv {
-    use super::*;
-
-    pub fn encode_time_point(timestamp: Timestamp, value: Value) -> Result<Vec<u8>> {
-        KvStorageProcessor::encode_time_point(timestamp, value)
-    }
-
-    pub fn decode_time_point(raw: &[u8]) -> Result<TimePoint> {
-        KvStorageProcessor::decode_time_point(raw)
-    }
-}
diff --git a/src/verif.rs b/src/verif.rs
index ea31857..6ec0ac6 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,10 +1,7 @@
 //! Hooks for external verification harnesses; compiled only with `--cfg monolith_verif`.
 //!
-//! Re-exports of private items, and a read-write lock that tells the harness' scheduler where a
-//! thread may be preempted, where it blocks and when it lets others go on.
+//! Re-exports of private items.
 pub use crate::backend::tikv::TiKvRawBackend;
-pub use crate::indexer::verif as indexer;
-pub use crate::storage::verif as storage;
 pub use crate::wal::{Entry, EntryType, FlushPolicy, Segment};
 
 pub mod proto {
@@ -14,94 +11,3 @@ pub mod proto {
 pub fn wal_magic_number() -> u64 {
     crate::wal::WAL_MAGIC_NUMBER
 }
-
-extern "C" {
-    /// The current thread may be preempted here.
-    fn vx_yield();
-    /// The current thread cannot go on before somebody calls vx_wake.
-    fn vx_block();
-    /// Blocked threads may try again.
-    fn vx_wake();
-}
-
-use std::ops::{Deref, DerefMut};
-use std::sync::{LockResult, PoisonError, TryLockError};
-
-#[derive(Default)]
-pub struct RwLock<T>(std::sync::RwLock<T>);
-pub struct ReadGuard<'a, T>(Option<std::sync::RwLockReadGuard<'a, T>>);
-pub struct WriteGuard<'a, T>(Option<std::sync::RwLockWriteGuard<'a, T>>);
-
-impl<T> RwLock<T> {
-    pub fn new(t: T) -> Self {
-        RwLock(std::sync::RwLock::new(t))
-    }
-
-    pub fn read(&self) -> LockResult<ReadGuard<'_, T>> {
-        loop {
-            unsafe { vx_yield() };
-            match self.0.try_read() {
-                Ok(g) => return Ok(ReadGuard(Some(g))),
-                Err(TryLockError::Poisoned(e)) => {
-                    return Err(PoisonError::new(ReadGuard(Some(e.into_inner()))))
-                }
-                Err(TryLockError::WouldBlock) => unsafe { vx_block() },
-            }
-        }
-    }
-
-    pub fn write(&self) -> LockResult<WriteGuard<'_, T>> {
-        loop {
-            unsafe { vx_yield() };
-            match self.0.try_write() {
-                Ok(g) => return Ok(WriteGuard(Some(g))),
-                Err(TryLockError::Poisoned(e)) => {
-                    return Err(PoisonError::new(WriteGuard(Some(e.into_inner()))))
-                }
-                Err(TryLockError::WouldBlock) => unsafe { vx_block() },
-            }
-        }
-    }
-
-    pub fn get_mut(&mut self) -> LockResult<&mut T> {
-        self.0.get_mut()
-    }
-
-    pub fn into_inner(self) -> LockResult<T> {
-        self.0.into_inner()
-    }
-}
-
-impl<'a, T> Deref for ReadGuard<'a, T> {
-    type Target = T;
-    fn deref(&self) -> &T {
-        self.0.as_ref().unwrap()
-    }
-}
-
-impl<'a, T> Deref for WriteGuard<'a, T> {
-    type Target = T;
-    fn deref(&self) -> &T {
-        self.0.as_ref().unwrap()
-    }
-}
-
-impl<'a, T> DerefMut for WriteGuard<'a, T> {
-    fn deref_mut(&mut self) -> &mut T {
-        self.0.as_mut().unwrap()
-    }
-}
-
-impl<'a, T> Drop for ReadGuard<'a, T> {
-    fn drop(&mut self) {
-        self.0.take();
-        unsafe { vx_wake() }
-    }
-}
-
-impl<'a, T> Drop for WriteGuard<'a, T> {
-    fn drop(&mut self) {
-        self.0.take();
-        unsafe { vx_wake() }
-    }
-}
-- 
2.43.0


From 524a42ad445cbbaea4c7d189f82cfbf16ef0a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 42/52] fix: query times before the epoch are not taken for
 times in the far future

---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index bd1276c..b86ec7b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -152,6 +152,10 @@ where
                     .queries
                     .iter()
                     .map(|q| {
+                        // times are signed here, but no point is older than the epoch
+                        if q.end_timestamp_ms < 0 {
+                            return Ok(Vec::new());
+                        }
                         Ok(self
                             .db
                             .query(
@@ -161,7 +165,7 @@ where
                                         .map(Label::from_label_matcher)
                                         .collect::<Vec<Label>>(),
                                 ),
-                                q.start_timestamp_ms as Timestamp,
+                                q.start_timestamp_ms.max(0) as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
                             )?
                             .iter()
-- 
2.43.0


From e22cff1e6e38e98c9eb0d8d38cd581f8b6fa6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:40 +0000
Subject: [PATCH 43/52] fix: points of chunks that overlap come back in time
 order

---
 src/db.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 67ed4a5..6293e35 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -264,10 +264,10 @@ where
             .filter(|o| o.is_some())
             .map(|o| o.unwrap())
             .map(|(labels, points)| {
-                (
-                    labels.clone(),
-                    points.iter().cloned().rev().collect::<Vec<TimePoint>>(),
-                )
+                let mut points = points.iter().cloned().rev().collect::<Vec<TimePoint>>();
+                // chunks of different runs may overlap
+                points.sort_by_key(|p| p.timestamp);
+                (labels.clone(), points)
             })
             .collect();
         Ok(res_vec)
-- 
2.43.0


From 2c608734a2c769daa3a728d5556dbb396c051de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 44/52] fix: read matchers other than equality are answered
 with an error

---
 src/server.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index b86ec7b..1462096 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,9 +2,9 @@ use crate::MonolithDb;
 
 use crate::common::label::{Label, Labels};
 use crate::common::time_series::TimeSeries;
-use crate::proto::{QueryResult, ReadRequest, ReadResponse, WriteRequest};
+use crate::proto::{LabelMatcher_Type, QueryResult, ReadRequest, ReadResponse, WriteRequest};
 use crate::storage::Storage;
-use crate::{Result, Timestamp};
+use crate::{MonolithErr, Result, Timestamp};
 use protobuf::{CodedInputStream, CodedOutputStream, Message, RepeatedField};
 use std::io::{Cursor, Read};
 use tiny_http::{Request, Response, Server};
@@ -152,6 +152,15 @@ where
                     .queries
                     .iter()
                     .map(|q| {
+                        // the index finds labels by their value only
+                        if q.matchers
+                            .iter()
+                            .any(|m| m.field_type != LabelMatcher_Type::EQ)
+                        {
+                            return Err(MonolithErr::InternalErr(
+                                "matcher kind is not supported".to_string(),
+                            ));
+                        }
                         // times are signed here, but no point is older than the epoch
                         if q.end_timestamp_ms < 0 {
                             return Ok(Vec::new());
-- 
2.43.0


From 1b64841b10078b2f80c473932b91d5f73b707a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 45/52] fix: points later than a restart are found after it

---
 src/db.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 6293e35..35488d1 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -153,14 +153,9 @@ where
                         Err(MonolithErr::NotFoundErr) => continue,
                         res => res?,
                     };
-                    let current_time = get_current_timestamp();
                     chunk_opts.start_time = Some(start_time);
-                    // reset end time is necessary
-                    chunk_opts.end_time = Some(if end_time > current_time {
-                        current_time
-                    } else {
-                        end_time
-                    });
+                    // it may hold points later than now
+                    chunk_opts.end_time = Some(end_time);
 
                     let storage = storage_builder
                         .read_from_chunk(&path.join("storage"), Some(&chunk_opts))?;
-- 
2.43.0


From ea63ab5e6a902ae6f5027534d0ce6cf347e9ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 46/52] fix: chunks are found below a directory whose path is
 not ASCII, names that are not text are passed over

---
 src/db.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 35488d1..2f9e840 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::path::{Path, PathBuf};
+use std::path::Path;
 use std::sync::mpsc::channel;
 use std::sync::Arc;
 use std::sync::RwLock;
@@ -136,18 +136,15 @@ where
     ) -> Result<Vec<Arc<Chunk<S, I>>>> {
         let mut res = Vec::new();
         for entry in fs::read_dir(dir)? {
-            let path_str = entry?.path().into_os_string().into_string().unwrap();
-            let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
-            let dir_name = path_str.clone();
-            let dir_name = dir_name
-                .chars()
-                .skip(_slash)
-                .take(dir_name.len() - _slash)
-                .collect();
+            let path = entry?.path();
+            let dir_name = match path.file_name().and_then(|name| name.to_str()) {
+                Some(name) => name.to_string(),
+                // not a chunk
+                None => continue,
+            };
             match decode_chunk_dir(dir_name) {
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
-                    let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
                         // not a chunk
                         Err(MonolithErr::NotFoundErr) => continue,
-- 
2.43.0


From f2dd841e91daceaffbe315fb9d4a70b0f735e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 47/52] fix: metadata files are written whole or not at all,
 failures are reported

---
 src/chunk/chunk.rs  | 10 +++-------
 src/common/utils.rs | 13 +++++++++++++
 src/db.rs           | 10 ++++------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 172f5cf..35567af 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -1,7 +1,7 @@
 use crate::common::label::Labels;
 use crate::common::time_point::TimePoint;
 use crate::common::time_series::TimeSeries;
-use crate::common::utils::{get_current_timestamp, is_duration_overlap};
+use crate::common::utils::{get_current_timestamp, is_duration_overlap, write_json_file};
 use crate::common::IdGenerator;
 use crate::{MonolithErr, Result, Timestamp, CHUNK_METADATA_FILENAME, DEFAULT_CHUNK_SIZE};
 
@@ -9,14 +9,12 @@ use crate::storage::Storage;
 use crate::MonolithErr::OutOfRangeErr;
 
 use crate::indexer::Indexer;
-use std::path::{Path, PathBuf};
+use std::path::Path;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::RwLock;
 
 use serde::{Deserialize, Serialize};
 use std::fs;
-use std::fs::File;
-use std::io::BufWriter;
 
 /// ChunkOps contains all options for chunk
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
@@ -51,9 +49,7 @@ impl ChunkOpts {
         // only write when start time and end time is not null
         if self.start_time.is_some() && self.end_time.is_some() {
             std::fs::create_dir_all(dir)?;
-            let file = File::create(dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)))?;
-            let mut writer = BufWriter::new(file);
-            serde_json::to_writer(&mut writer, &self.clone());
+            write_json_file(&dir.join(CHUNK_METADATA_FILENAME), self)?;
         }
         Ok(())
     }
diff --git a/src/common/utils.rs b/src/common/utils.rs
index 9f9c33e..21a2c37 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -1,7 +1,9 @@
 use crate::ops::OrderIntersect;
 use crate::time_series::TimeSeriesId;
 use crate::{MonolithErr, Result, Timestamp};
+use serde::Serialize;
 use std::fs::File;
+use std::io::{BufWriter, Write};
 use std::ops::Index;
 use std::path::Path;
 use std::sync::mpsc::{channel, Receiver, Sender, TryRecvError};
@@ -40,6 +42,17 @@ pub fn decode_chunk_dir(dir_name: String) -> Result<(Timestamp, Timestamp)> {
     Ok((start_time, end_time))
 }
 
+/// Write `value` as json into `path`, which either keeps its old content or gets all of the new one
+pub fn write_json_file<T: Serialize>(path: &Path, value: &T) -> Result<()> {
+    let tmp_path = path.with_extension("tmp");
+    let mut writer = BufWriter::new(File::create(&tmp_path)?);
+    serde_json::to_writer(&mut writer, value)?;
+    writer.flush()?;
+    writer.get_ref().sync_all()?;
+    fs::rename(&tmp_path, path)?;
+    Ok(())
+}
+
 /// Given a list of `TimeSeriesId` array, this function return the the `TimeSeriesId` that occur in all array
 ///
 /// Note that the element in each `TimeSeriesId` array must be in __ascend order__.
diff --git a/src/db.rs b/src/db.rs
index 2f9e840..e96ba4e 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -11,13 +11,13 @@ use crate::common::label::Labels;
 use crate::common::metadata::DbMetadata;
 use crate::common::time_point::TimePoint;
 use crate::common::time_series::LabelPointPairs;
-use crate::common::utils::{decode_chunk_dir, encode_chunk_dir, get_current_timestamp};
+use crate::common::utils::{
+    decode_chunk_dir, encode_chunk_dir, get_current_timestamp, write_json_file,
+};
 use crate::indexer::Indexer;
 use crate::option::DbOpts;
 use crate::storage::Storage;
 use crate::{Builder, MonolithErr, Result, Timestamp, DB_METADATA_FILENAME};
-use std::fs::File;
-use std::io::BufWriter;
 
 /// MonolithDb is thread-safe
 pub struct MonolithDb<S: Storage, I: Indexer>
@@ -120,9 +120,7 @@ where
                 // there is a metadata file, but it cannot be read: do not overwrite it
                 content?;
             }
-            let file = File::create(base_dir.join(DB_METADATA_FILENAME))?;
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, db_metadata)?;
+            write_json_file(&base_dir.join(DB_METADATA_FILENAME), db_metadata)?;
         }
 
         Ok(())
-- 
2.43.0


From e56718b0bb3b7a5eea742dc930b285a3b73f8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 48/52] fix: --tikv_config takes the file it is for

---
 src/bin/monolith-server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/monolith-server.rs b/src/bin/monolith-server.rs
index 4f327a2..cf74a16 100644
--- a/src/bin/monolith-server.rs
+++ b/src/bin/monolith-server.rs
@@ -54,7 +54,9 @@ fn main() {
             Arg::with_name(WORKER_NUM)
                 .long(WORKER_NUM)
                 .default_value(default_worker_num.as_str()),
-            Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG),
+            Arg::with_name(TIKV_CONFIG)
+                .long(TIKV_CONFIG)
+                .takes_value(true),
         ])
         .get_matches();
 
-- 
2.43.0


From 56fdbd10f43ea33603a4b6e1f0bac8dfb988ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 49/52] fix: the directory's default is the one the program is
 started in, not the one it was built in

---
 src/bin/monolith-server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/monolith-server.rs b/src/bin/monolith-server.rs
index cf74a16..6f0374d 100644
--- a/src/bin/monolith-server.rs
+++ b/src/bin/monolith-server.rs
@@ -38,7 +38,7 @@ fn main() {
             Arg::with_name(FILE_DIR_ARG)
                 .short("dir")
                 .long(FILE_DIR_ARG)
-                .default_value(env!("PWD")),
+                .default_value("."),
             Arg::with_name(CHUNK_SIZE)
                 .long(CHUNK_SIZE)
                 .default_value(DEFAULT_CHUNK_SIZE),
-- 
2.43.0


From 5fa4887918a9afe7413357715c60e0e5280a58d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 50/52] fix: chunk sizes beyond what timestamps can hold are
 refused, not cut

---
 src/common/option.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/option.rs b/src/common/option.rs
index 27faef2..e8b72a0 100644
--- a/src/common/option.rs
+++ b/src/common/option.rs
@@ -24,6 +24,10 @@ impl DbOpts {
     pub fn get_config(matches: &ArgMatches) -> Result<DbOpts> {
         let chunk_size_str = matches.value_of(CHUNK_SIZE).unwrap();
         let chunk_size_in_sec: u64 = String::from(chunk_size_str).parse()?;
+        // the end of a chunk is a timestamp in milliseconds
+        if chunk_size_in_sec > i64::max_value() as u64 / 1000 {
+            return Err(MonolithErr::OptionErr);
+        }
         let config = DbOpts {
             storage: matches.value_of(STORAGE_ARG).unwrap().to_string(),
             indexer: matches.value_of(INDEXER_ARG).unwrap().to_string(),
-- 
2.43.0


From b8d5dc5c1d793f3d5b6ed1829b253297db6c0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 51/52] fix: a TiKV config file without dry_run means a dry
 run, as documented

---
 src/backend/tikv.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index 30bb6de..c2c4cb9 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -112,11 +112,10 @@ impl Default for TiKvRawBackendSingleton {
 }
 
 #[derive(Debug, Serialize, Deserialize)]
+#[serde(default)]
 pub struct TiKvBackendConfigFile {
-    #[serde(default)]
     pd_endpoints: Vec<String>,
     //yaml: pd_endpoints
-    #[serde(default)]
     dry_run: bool, //yaml: dry_run
 }
 
-- 
2.43.0


From 3b9bc7c8ba8c10f0e85cb11d90695391e41c699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 52/52] fix: the documentation names the options, port and
 settings there are

---
 README.md | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 924f603..d03bebd 100644
--- a/README.md
+++ b/README.md
@@ -14,22 +14,22 @@ monolith-server [Options]
     
     -s   --storage    type of storage. Valid value <sled, tikv>
     -i   --indexer    type of indexer. Valid value <sled, tikv>
-    -dir --file_dir   dictionary of to store the data from indexer and storage.
+    -d   --file_dir   dictionary of to store the data from indexer and storage.
          --chunk_size size of one chunk in seconds.
-         --port       port of server. Default to be 10090
+         --port       port of server. Default to be 9001
          --write_path path of write endpoint. Default to be /write
          --read_path  path of read endpoint. Default to be /read
          --worker_num number of thread to process incoming requests. We use multiple 
          --tikv_config config file if using tikv backend. If not provide, will go into debug mode and use an in-memory key value map to mock tikv.
 ```
 
-After started monolith-server, you can set remote write endpoint in prometheus to be `http://127.0.0.1:10090/write` if using default port.
+After started monolith-server, you can set remote write endpoint in prometheus to be `http://127.0.0.1:9001/write` if using default port.
 
 To connect to tikv, provide below information in yaml file and use that file in `--tikv_config`
 
 ```yaml
 dry_run: false # if true, then instead of connecting to tikv, we will use an in-memory key value map to mock tikv. Default to be true
-pd_endpoint: # pd endpoint of tikv cluster. 
+pd_endpoints: # pd endpoint of tikv cluster. 
  - 127.0.0.1 
 ```
 
-- 
2.43.0

