From 38679a0a587c35121cf93def7cf4738a2264a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 01/38] verif: object store injection hook behind
 cfg(hudi_verif)

---
 crates/core/src/lib.rs         |  2 ++
 crates/core/src/storage/mod.rs | 10 +++++++++
 crates/core/src/verif_hooks.rs | 38 ++++++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+)
 create mode 100644 crates/core/src/verif_hooks.rs

diff --git a/crates/core/src/lib.rs b/crates/core/src/lib.rs
index 0c34893..24167fa 100644
--- a/crates/core/src/lib.rs
+++ b/crates/core/src/lib.rs
@@ -54,5 +54,7 @@ pub mod storage;
 pub mod table;
 pub mod timeline;
 pub mod util;
+#[cfg(hudi_verif)]
+pub mod verif_hooks;
 
 use error::Result;
diff --git a/crates/core/src/storage/mod.rs b/crates/core/src/storage/mod.rs
index ce7695b..f760e3e 100644
--- a/crates/core/src/storage/mod.rs
+++ b/crates/core/src/storage/mod.rs
@@ -73,6 +73,16 @@ impl Storage {
             }
         };
 
+        #[cfg(hudi_verif)]
+        if let Some(object_store) = crate::verif_hooks::object_store() {
+            return Ok(Arc::new(Storage {
+                base_url: Arc::new(base_url),
+                object_store,
+                options,
+                hudi_configs,
+            }));
+        }
+
         match parse_url_opts(&base_url, options.as_ref()) {
             Ok((object_store, _)) => Ok(Arc::new(Storage {
                 base_url: Arc::new(base_url),
diff --git a/crates/core/src/verif_hooks.rs b/crates/core/src/verif_hooks.rs
new file mode 100644
index 0000000..769a2dc
--- /dev/null
+++ b/crates/core/src/verif_hooks.rs
@@ -0,0 +1,38 @@
+/*
+ * Licensed to the Apache Software Foundation (ASF) under one
+ * or more contributor license agreements.  See the NOTICE file
+ * distributed with this work for additional information
+ * regarding copyright ownership.  The ASF licenses this file
+ * to you under the Apache License, Version 2.0 (the
+ * "License"); you may not use this file except in compliance
+ * with the License.  You may obtain a copy of the License at
+ *
+ *   http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing,
+ * software distributed under the License is distributed on an
+ * "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+ * KIND, either express or implied.  See the License for the
+ * specific language governing permissions and limitations
+ * under the License.
+ */
+//! Verification hooks, compiled only with `--cfg hudi_verif`.
+//!
+//! They let an external harness run the public read APIs against an object store it supplies,
+//! and name the instant range type that the public log file readers take as an argument.
+
+use object_store::ObjectStore;
+use std::sync::{Arc, RwLock};
+
+pub use crate::timeline::selector::InstantRange;
+
+static OBJECT_STORE: RwLock<Option<Arc<dyn ObjectStore>>> = RwLock::new(None);
+
+/// Every [`crate::storage::Storage`] created afterwards uses the given object store.
+pub fn set_object_store(store: Option<Arc<dyn ObjectStore>>) {
+    *OBJECT_STORE.write().unwrap() = store;
+}
+
+pub(crate) fn object_store() -> Option<Arc<dyn ObjectStore>> {
+    OBJECT_STORE.read().unwrap().clone()
+}
-- 
2.43.0


From f8374edc1739845f44e7d09bc986576a3f358834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 02/38] fix: reject malformed instant timestamps instead of
 panicking or accepting non-digits

---
 crates/core/src/timeline/instant.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index e3e191e..00663eb 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -135,7 +135,6 @@ impl Instant {
         let (timestamp, action_suffix) = file_name
             .split_once('.')
             .ok_or_else(|| CoreError::Timeline(format!("Invalid file name: {}", file_name)))?;
-        Self::validate_timestamp(timestamp)?;
         let dt = Self::parse_datetime(timestamp, timezone)?;
         let (action, state) = Self::parse_action_and_state(action_suffix)?;
 
@@ -148,7 +147,7 @@ impl Instant {
     }
 
     fn validate_timestamp(timestamp: &str) -> Result<()> {
-        if !matches!(timestamp.len(), 14 | 17) {
+        if !matches!(timestamp.len(), 14 | 17) || !timestamp.bytes().all(|b| b.is_ascii_digit()) {
             return Err(CoreError::Timeline(format!(
                 "Timestamp must be in format yyyyMMddHHmmss or yyyyMMddHHmmssSSS, but got: {}",
                 timestamp
@@ -163,6 +162,8 @@ impl Instant {
     }
 
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
+        Self::validate_timestamp(timestamp)?;
+
         let naive_dt = NaiveDateTime::parse_from_str(&timestamp[..14], "%Y%m%d%H%M%S")
             .map_err(|e| CoreError::Timeline(format!("Failed to parse timestamp: {}", e)))?;
 
-- 
2.43.0


From 3b460061ae9c7fd5d29ea1d52f2c469d1c0e3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 03/38] fix: hide base files of uncommitted (pending) instants
 from snapshot and time-travel reads

A base file whose action is still requested or inflight was read as if it
were committed.
---
 crates/core/src/table/builder.rs |  8 ++++--
 crates/core/src/table/fs_view.rs |  6 ++++-
 crates/core/src/table/listing.rs | 28 +++++++++++++++++++--
 crates/core/src/timeline/mod.rs  | 42 +++++++++++++++++++++++++++++---
 4 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 35e805e..6402a9a 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -117,8 +117,12 @@ impl TableBuilder {
         let timeline =
             Timeline::new_from_storage(hudi_configs.clone(), storage_options.clone()).await?;
 
-        let file_system_view =
-            FileSystemView::new(hudi_configs.clone(), storage_options.clone()).await?;
+        let file_system_view = FileSystemView::new(
+            hudi_configs.clone(),
+            storage_options.clone(),
+            timeline.pending_timestamps.clone(),
+        )
+        .await?;
 
         Ok(Table {
             hudi_configs,
diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index d25389b..afa9724 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -37,6 +37,7 @@ use dashmap::DashMap;
 pub struct FileSystemView {
     pub(crate) hudi_configs: Arc<HudiConfigs>,
     pub(crate) storage: Arc<Storage>,
+    pending_timestamps: Arc<HashSet<String>>,
     partition_to_file_groups: Arc<DashMap<String, Vec<FileGroup>>>,
 }
 
@@ -44,12 +45,14 @@ impl FileSystemView {
     pub async fn new(
         hudi_configs: Arc<HudiConfigs>,
         storage_options: Arc<HashMap<String, String>>,
+        pending_timestamps: HashSet<String>,
     ) -> Result<Self> {
         let storage = Storage::new(storage_options.clone(), hudi_configs.clone())?;
         let partition_to_file_groups = Arc::new(DashMap::new());
         Ok(FileSystemView {
             hudi_configs,
             storage,
+            pending_timestamps: Arc::new(pending_timestamps),
             partition_to_file_groups,
         })
     }
@@ -59,7 +62,8 @@ impl FileSystemView {
             self.hudi_configs.clone(),
             self.storage.clone(),
             partition_pruner.to_owned(),
-        );
+        )
+        .excluding_pending(self.pending_timestamps.clone());
         let file_groups_map = lister.list_file_groups_for_relevant_partitions().await?;
         for (partition_path, file_groups) in file_groups_map {
             self.partition_to_file_groups
diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 08bcac5..d3c4896 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -31,7 +31,7 @@ use crate::table::partition::{
 use crate::Result;
 use dashmap::DashMap;
 use futures::{stream, StreamExt, TryStreamExt};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::string::ToString;
 use std::sync::Arc;
 
@@ -41,6 +41,7 @@ pub struct FileLister {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
     partition_pruner: PartitionPruner,
+    pending_timestamps: Arc<HashSet<String>>,
 }
 
 impl FileLister {
@@ -53,9 +54,16 @@ impl FileLister {
             hudi_configs,
             storage,
             partition_pruner,
+            pending_timestamps: Arc::new(HashSet::new()),
         }
     }
 
+    /// Leave out the base files written by actions that have not completed.
+    pub fn excluding_pending(mut self, pending_timestamps: Arc<HashSet<String>>) -> Self {
+        self.pending_timestamps = pending_timestamps;
+        self
+    }
+
     fn should_exclude_for_listing(file_name: &str) -> bool {
         file_name.starts_with(PARTITION_METAFIELD_PREFIX) || file_name.ends_with(".crc")
     }
@@ -81,6 +89,12 @@ impl FileLister {
                 // After excluding the unintended files,
                 // we expect a file that has the base file extension to be a valid base file.
                 let base_file = BaseFile::try_from(file_metadata)?;
+                if self
+                    .pending_timestamps
+                    .contains(&base_file.commit_timestamp)
+                {
+                    continue;
+                }
                 let file_id = &base_file.file_id;
                 file_id_to_base_files
                     .entry(file_id.to_owned())
@@ -115,7 +129,17 @@ impl FileLister {
             file_group.add_base_files(base_files)?;
 
             let log_files = file_id_to_log_files.remove(&file_id).unwrap_or_default();
-            file_group.add_log_files(log_files)?;
+            for log_file in log_files {
+                let base_timestamp = log_file.base_commit_timestamp.clone();
+                if self.pending_timestamps.contains(&base_timestamp) {
+                    // Written on top of a pending compaction: belongs to the slice being compacted.
+                    if let Some(slice) = file_group.get_file_slice_mut_as_of(&base_timestamp) {
+                        slice.log_files.insert(log_file);
+                    }
+                } else {
+                    file_group.add_log_file(log_file)?;
+                }
+            }
 
             file_groups.push(file_group);
         }
diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index ac78903..1d2dd95 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -24,6 +24,7 @@ use crate::error::CoreError;
 use crate::file_group::builder::{build_file_groups, build_replaced_file_groups, FileGroupMerger};
 use crate::file_group::FileGroup;
 use crate::metadata::HUDI_METADATA_DIR;
+use crate::storage::file_metadata::FileMetadata;
 use crate::storage::Storage;
 use crate::timeline::instant::Action;
 use crate::timeline::selector::TimelineSelector;
@@ -45,6 +46,9 @@ pub struct Timeline {
     hudi_configs: Arc<HudiConfigs>,
     pub(crate) storage: Arc<Storage>,
     pub completed_commits: Vec<Instant>,
+    /// Timestamps of the actions that were requested or inflight, and not completed, when the
+    /// timeline was loaded.
+    pub(crate) pending_timestamps: HashSet<String>,
 }
 
 pub const EARLIEST_START_TIMESTAMP: &str = "19700101000000000";
@@ -63,6 +67,7 @@ impl Timeline {
             hudi_configs,
             storage,
             completed_commits,
+            pending_timestamps: HashSet::new(),
         })
     }
 
@@ -77,11 +82,16 @@ impl Timeline {
             None,
             None,
         )?;
-        let completed_commits = Self::load_instants(&selector, &storage, false).await?;
+        // Use a single listing, such that an action completing in the meantime is seen as either
+        // pending or completed.
+        let files = storage.list_files(Some(HUDI_METADATA_DIR)).await?;
+        let completed_commits = Self::create_instants(&selector, &files, false);
+        let pending_timestamps = Self::find_pending_timestamps(&files, &completed_commits);
         Ok(Self {
             hudi_configs,
             storage,
             completed_commits,
+            pending_timestamps,
         })
     }
 
@@ -91,7 +101,32 @@ impl Timeline {
         desc: bool,
     ) -> Result<Vec<Instant>> {
         let files = storage.list_files(Some(HUDI_METADATA_DIR)).await?;
+        Ok(Self::create_instants(selector, &files, desc))
+    }
 
+    fn find_pending_timestamps(
+        files: &[FileMetadata],
+        completed_commits: &[Instant],
+    ) -> HashSet<String> {
+        let mut timestamps: HashSet<String> = files
+            .iter()
+            .filter_map(|file_info| file_info.name.split_once('.'))
+            .filter(|(_, suffix)| {
+                matches!(suffix.rsplit('.').next(), Some("requested" | "inflight"))
+            })
+            .map(|(timestamp, _)| timestamp.to_string())
+            .collect();
+        for instant in completed_commits {
+            timestamps.remove(&instant.timestamp);
+        }
+        timestamps
+    }
+
+    fn create_instants(
+        selector: &TimelineSelector,
+        files: &[FileMetadata],
+        desc: bool,
+    ) -> Vec<Instant> {
         // For most cases, we load completed instants, so we can pre-allocate the vector with a
         // capacity of 1/3 of the total number of listed files,
         // ignoring requested and inflight instants.
@@ -117,10 +152,9 @@ impl Timeline {
         instants.shrink_to_fit();
 
         if desc {
-            Ok(instants.into_iter().rev().collect())
-        } else {
-            Ok(instants)
+            instants.reverse();
         }
+        instants
     }
 
     /// Get the completed commit [Instant]s in the timeline.
-- 
2.43.0


From 72946fb4328e70b2478f289fc034476b9ef324ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 04/38] fix: resolve the latest schema when the latest commit
 wrote no files

A commit that only deletes partitions (no write stats) made every read of
the table fail.
---
 crates/core/src/timeline/mod.rs | 44 +++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 1d2dd95..0f80ef1 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -289,24 +289,23 @@ impl Timeline {
 
     /// Get the latest [arrow_schema::Schema] from the [Timeline].
     pub async fn get_latest_schema(&self) -> Result<Schema> {
-        let commit_metadata = self.get_latest_commit_metadata().await?;
-
-        let first_partition = commit_metadata
-            .get("partitionToWriteStats")
-            .and_then(|v| v.as_object());
-
-        let partition_path = first_partition
-            .and_then(|obj| obj.keys().next())
-            .ok_or_else(|| {
-                CoreError::CommitMetadata(
-                    "Failed to resolve the latest schema: no partition path found".to_string(),
-                )
-            })?;
+        // The latest commit may not have written any file, e.g., when it only deleted partitions.
+        let mut latest_write_stat = None;
+        for instant in self.completed_commits.iter().rev() {
+            let commit_metadata = self.get_instant_metadata(instant).await?;
+            latest_write_stat = Self::find_write_stat(&commit_metadata)
+                .map(|(partition, stat)| (partition.to_string(), stat.clone()));
+            if latest_write_stat.is_some() {
+                break;
+            }
+        }
+        let (partition_path, write_stat) = latest_write_stat.ok_or_else(|| {
+            CoreError::CommitMetadata(
+                "Failed to resolve the latest schema: no partition path found".to_string(),
+            )
+        })?;
 
-        let first_value = first_partition
-            .and_then(|obj| obj.values().next())
-            .and_then(|value| value.as_array())
-            .and_then(|arr| arr.first());
+        let first_value = Some(&write_stat);
 
         let parquet_path = first_value.and_then(|v| v["path"].as_str());
         match parquet_path {
@@ -322,7 +321,7 @@ impl Timeline {
                             "Failed to resolve the latest schema: no file path found".to_string(),
                         )
                     })?;
-                let parquet_file_path_buf = PathBuf::from_str(partition_path)
+                let parquet_file_path_buf = PathBuf::from_str(&partition_path)
                     .map_err(|e| {
                         CoreError::CommitMetadata(format!(
                             "Failed to resolve the latest schema: {}",
@@ -343,6 +342,15 @@ impl Timeline {
         }
     }
 
+    /// Find the first write stat, along with its partition path, in the commit metadata.
+    fn find_write_stat(commit_metadata: &Map<String, Value>) -> Option<(&str, &Value)> {
+        commit_metadata
+            .get("partitionToWriteStats")?
+            .as_object()?
+            .iter()
+            .find_map(|(partition, stats)| Some((partition.as_str(), stats.as_array()?.first()?)))
+    }
+
     pub(crate) async fn get_replaced_file_groups_as_of(
         &self,
         timestamp: &str,
-- 
2.43.0


From c13ea8500990a35731b3952b63f96b6fca62c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:13 +0000
Subject: [PATCH 05/38] fix: prune url-encoded partition values that contain an
 encoded slash

The whole partition path was decoded before it was split at '/', so such a
partition could not be parsed and was never pruned.
---
 crates/core/src/table/partition.rs | 36 +++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 307b428..93953a2 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -118,21 +118,31 @@ impl PartitionPruner {
         })
     }
 
-    fn parse_segments(&self, partition_path: &str) -> Result<HashMap<String, Scalar<ArrayRef>>> {
-        let partition_path = if self.is_url_encoded {
-            percent_encoding::percent_decode(partition_path.as_bytes())
-                .decode_utf8()?
-                .into_owned()
-        } else {
-            partition_path.to_string()
-        };
+    fn url_decode(value: &str) -> Result<String> {
+        Ok(percent_encoding::percent_decode(value.as_bytes())
+            .decode_utf8()?
+            .into_owned())
+    }
 
-        let parts: Vec<&str> = partition_path.split('/').collect();
+    fn parse_segments(&self, partition_path: &str) -> Result<HashMap<String, Scalar<ArrayRef>>> {
+        let num_fields = self.schema.fields().len();
+        let mut parts: Vec<String> = partition_path.split('/').map(str::to_string).collect();
+        if self.is_url_encoded {
+            if parts.len() == num_fields {
+                // Decode the parts separately, as a decoded value may contain '/'.
+                for part in parts.iter_mut() {
+                    *part = Self::url_decode(part)?;
+                }
+            } else {
+                let decoded = Self::url_decode(partition_path)?;
+                parts = decoded.split('/').map(str::to_string).collect();
+            }
+        }
 
-        if parts.len() != self.schema.fields().len() {
+        if parts.len() != num_fields {
             return Err(InvalidPartitionPath(format!(
                 "Partition path should have {} part(s) but got {}",
-                self.schema.fields().len(),
+                num_fields,
                 parts.len()
             )));
         }
@@ -140,7 +150,7 @@ impl PartitionPruner {
         self.schema
             .fields()
             .iter()
-            .zip(parts)
+            .zip(&parts)
             .map(|(field, part)| {
                 let value = if self.is_hive_style {
                     let (name, value) = part.split_once('=').ok_or(InvalidPartitionPath(
@@ -155,7 +165,7 @@ impl PartitionPruner {
                     }
                     value
                 } else {
-                    part
+                    part.as_str()
                 };
                 let scalar = SchemableFilter::cast_value(&[value], field.data_type())?;
                 Ok((field.name().to_string(), scalar))
-- 
2.43.0


From bd86636c56e711ca671f4c9877929267681a734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:08 +0000
Subject: [PATCH 06/38] fix: match partition path parts with the partition
 fields in their configured order

The partition schema followed the column order of the table, so partition
values were compared with the filters of other fields and matching
partitions were dropped from reads.
---
 crates/core/src/table/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index e47ff9b..1f3805f 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -105,7 +105,7 @@ use crate::Result;
 use crate::config::read::HudiReadConfig;
 use arrow::record_batch::RecordBatch;
 use arrow_schema::{Field, Schema};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
@@ -205,19 +205,16 @@ impl Table {
 
     /// Get the latest partition [arrow_schema::Schema] of the table.
     pub async fn get_partition_schema(&self) -> Result<Schema> {
-        let partition_fields: HashSet<String> = self
+        let partition_fields = self
             .hudi_configs
             .get_or_default(PartitionFields)
-            .to::<Vec<String>>()
-            .into_iter()
-            .collect();
+            .to::<Vec<String>>();
 
+        // Follow the order of the partition fields, which is the order of the partition path parts.
         let schema = self.get_schema().await?;
-        let partition_fields: Vec<Arc<Field>> = schema
-            .fields()
+        let partition_fields: Vec<Arc<Field>> = partition_fields
             .iter()
-            .filter(|field| partition_fields.contains(field.name()))
-            .cloned()
+            .filter_map(|name| schema.fields().find(name).map(|(_, field)| field.clone()))
             .collect();
 
         Ok(Schema::new(partition_fields))
-- 
2.43.0


From 00b25f48e73ee9f28cf3637b7798a0758c997934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:52 +0000
Subject: [PATCH 07/38] fix: order log files by numeric version

Versions were compared as text, so .log.10 was merged before .log.9.
---
 crates/core/src/file_group/log_file/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index 30868c1..93c74ef 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -169,8 +169,11 @@ impl Ord for LogFile {
     fn cmp(&self, other: &Self) -> Ordering {
         // Compare fields in order: base_commit_timestamp, version, write_token
         // TODO support `.cdc` suffix
+        // Versions are numbers: compare 9 before 10
+        let version_number = |log_file: &LogFile| log_file.version.parse::<u64>().ok();
         self.base_commit_timestamp
             .cmp(&other.base_commit_timestamp)
+            .then(version_number(self).cmp(&version_number(other)))
             .then(self.version.cmp(&other.version))
             .then(self.write_token.cmp(&other.write_token))
     }
-- 
2.43.0


From 270e52b2749437b9a30672117a738a639d44a801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:31 +0000
Subject: [PATCH 08/38] fix: keep all write stats of a file group when building
 it from commit metadata

The second and later write stats of the same file group were dropped, and
with them their log files.
---
 crates/core/src/file_group/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/file_group/builder.rs b/crates/core/src/file_group/builder.rs
index 9f2d0c3..36f3c66 100644
--- a/crates/core/src/file_group/builder.rs
+++ b/crates/core/src/file_group/builder.rs
@@ -54,7 +54,7 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
             CoreError::CommitMetadata("Invalid or missing partitionToWriteStats object".into())
         })?;
 
-    let mut file_groups = HashSet::new();
+    let mut file_groups: HashSet<FileGroup> = HashSet::new();
 
     for (partition, write_stats_array) in partition_stats {
         let write_stats = write_stats_array
@@ -103,7 +103,8 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
                 file_group.add_base_file_from_name(file_name)?;
             }
 
-            file_groups.insert(file_group);
+            // A file group may have multiple write stats.
+            file_groups.merge([file_group])?;
         }
     }
 
-- 
2.43.0


From 7deceea72da1e03329e43afac22644350aa5749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 09/38] fix: reject base file names with more than three parts

The extra parts were dropped, so the parsed file denoted a different path.
---
 crates/core/src/file_group/base_file.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/file_group/base_file.rs b/crates/core/src/file_group/base_file.rs
index 4f35b87..2030d27 100644
--- a/crates/core/src/file_group/base_file.rs
+++ b/crates/core/src/file_group/base_file.rs
@@ -57,6 +57,9 @@ impl BaseFile {
             .rsplit_once('.')
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?;
         let parts: Vec<&str> = stem.split('_').collect();
+        if parts.len() != 3 {
+            return Err(CoreError::FileGroup(err_msg));
+        }
         let file_id = parts
             .first()
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-- 
2.43.0


From bee3a1ef4c988ce2e1ede84bfd71025031f9bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 10/38] fix: treat absent hive-style and url-encode table
 configs as disabled

---
 crates/core/src/table/partition.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 93953a2..31ca32d 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -69,12 +69,12 @@ impl PartitionPruner {
             .collect::<Result<Vec<SchemableFilter>>>()?;
 
         let schema = Arc::new(partition_schema.clone());
-        let is_hive_style: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsHiveStylePartitioning)
-            .to();
-        let is_url_encoded: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsPartitionPathUrlencoded)
-            .to();
+        let is_hive_style = hudi_configs
+            .try_get(HudiTableConfig::IsHiveStylePartitioning)
+            .is_some_and(|v| v.to());
+        let is_url_encoded = hudi_configs
+            .try_get(HudiTableConfig::IsPartitionPathUrlencoded)
+            .is_some_and(|v| v.to());
         Ok(PartitionPruner {
             schema,
             is_hive_style,
-- 
2.43.0


From e4074da82a920e23de3730fe31aa0d56301317f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 11/38] fix: return an error instead of panicking when opening
 a table with invalid configs

---
 crates/core/src/table/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 6402a9a..3c5c23a 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -109,7 +109,7 @@ impl TableBuilder {
 
         let hudi_configs = HudiConfigs::new(self.hudi_options.iter());
 
-        Self::validate_configs(&hudi_configs).expect("Hudi configs are not valid.");
+        Self::validate_configs(&hudi_configs)?;
 
         let hudi_configs = Arc::from(hudi_configs);
         let storage_options = Arc::from(self.storage_options.clone());
-- 
2.43.0


From 232f5b122c673258e7d7bc715e5b3c32a63c9804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 12/38] fix: treat an empty partition fields config as
 non-partitioned

---
 crates/core/src/config/table.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/config/table.rs b/crates/core/src/config/table.rs
index 149938e..f293474 100644
--- a/crates/core/src/config/table.rs
+++ b/crates/core/src/config/table.rs
@@ -203,8 +203,15 @@ impl ConfigParser for HudiTableConfig {
                 })
                 .map(HudiConfigValue::Boolean),
             Self::KeyGeneratorClass => get_result.map(|v| HudiConfigValue::String(v.to_string())),
-            Self::PartitionFields => get_result
-                .map(|v| HudiConfigValue::List(v.split(',').map(str::to_string).collect())),
+            Self::PartitionFields => get_result.map(|v| {
+                // An empty value means that the table is not partitioned.
+                HudiConfigValue::List(
+                    v.split(',')
+                        .filter(|field| !field.is_empty())
+                        .map(str::to_string)
+                        .collect(),
+                )
+            }),
             Self::PrecombineField => get_result.map(|v| HudiConfigValue::String(v.to_string())),
             Self::PopulatesMetaFields => get_result
                 .and_then(|v| {
-- 
2.43.0


From fbfbd3ee2cde563a4fbad867b9ee26a336a1d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:54 +0000
Subject: [PATCH 13/38] fix: apply rollback blocks of log files regardless of
 the instant range

---
 crates/core/src/file_group/log_file/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 901ebfe..f9e3901 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -237,7 +237,9 @@ impl<R: Read + Seek> LogFileReader<R> {
         let header = self.read_block_metadata(BlockMetadataType::Header, &format_version)?;
         let mut skipped = false;
         if self.should_skip_block(&header, instant_range)? {
-            skipped = true;
+            // Command blocks apply regardless of the instant range: the data of a rolled back
+            // instant must not be read, no matter when the rollback happened.
+            skipped = block_type != BlockType::Command;
             // TODO skip reading block
         }
 
-- 
2.43.0


From 2f2c2e164a540af239896208025b8b21f0136938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:29 +0000
Subject: [PATCH 14/38] fix: hide log blocks of uncommitted (pending)
 deltacommits

---
 crates/core/src/file_group/log_file/scanner.rs | 13 ++++++++++++-
 crates/core/src/file_group/reader.rs           | 10 ++++++++++
 crates/core/src/table/mod.rs                   |  5 +++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/file_group/log_file/scanner.rs b/crates/core/src/file_group/log_file/scanner.rs
index d6ef227..f4345cb 100644
--- a/crates/core/src/file_group/log_file/scanner.rs
+++ b/crates/core/src/file_group/log_file/scanner.rs
@@ -30,6 +30,7 @@ use std::sync::Arc;
 pub struct LogFileScanner {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
+    pending_timestamps: Arc<HashSet<String>>,
 }
 
 impl LogFileScanner {
@@ -37,9 +38,16 @@ impl LogFileScanner {
         Self {
             hudi_configs,
             storage,
+            pending_timestamps: Arc::new(HashSet::new()),
         }
     }
 
+    /// Leave out the blocks written by actions that have not completed.
+    pub fn excluding_pending(mut self, pending_timestamps: Arc<HashSet<String>>) -> Self {
+        self.pending_timestamps = pending_timestamps;
+        self
+    }
+
     pub async fn scan(
         &self,
         relative_paths: Vec<String>,
@@ -70,7 +78,10 @@ impl LogFileScanner {
         let mut record_batches: Vec<Vec<RecordBatch>> = Vec::new();
         for blocks in all_blocks {
             for block in blocks {
-                if !rollback_targets.contains(block.instant_time()?) {
+                let instant_time = block.instant_time()?;
+                if !rollback_targets.contains(instant_time)
+                    && !self.pending_timestamps.contains(instant_time)
+                {
                     record_batches.push(block.record_batches);
                 }
             }
diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index 69f9cf4..4300600 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -33,6 +33,7 @@ use arrow::compute::and;
 use arrow::compute::filter_record_batch;
 use arrow_array::{BooleanArray, RecordBatch};
 use futures::TryFutureExt;
+use std::collections::HashSet;
 use std::convert::TryFrom;
 use std::sync::Arc;
 
@@ -41,6 +42,7 @@ use std::sync::Arc;
 pub struct FileGroupReader {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
+    pending_timestamps: Arc<HashSet<String>>,
 }
 
 impl FileGroupReader {
@@ -63,9 +65,16 @@ impl FileGroupReader {
         Ok(Self {
             hudi_configs,
             storage,
+            pending_timestamps: Arc::new(HashSet::new()),
         })
     }
 
+    /// Leave out the log blocks written by actions that have not completed.
+    pub(crate) fn excluding_pending(mut self, pending_timestamps: HashSet<String>) -> Self {
+        self.pending_timestamps = Arc::new(pending_timestamps);
+        self
+    }
+
     /// Creates a new reader with the given base URI and options.
     ///
     /// # Arguments
@@ -215,6 +224,7 @@ impl FileGroupReader {
             let instant_range = self.create_instant_range_for_log_file_scan();
             let log_record_batches =
                 LogFileScanner::new(self.hudi_configs.clone(), self.storage.clone())
+                    .excluding_pending(self.pending_timestamps.clone())
                     .scan(log_file_paths, &instant_range)
                     .await?;
             for log_record_batch in log_record_batches {
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 1f3805f..ddbcc84 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -393,10 +393,11 @@ impl Table {
         for (k, v) in options {
             overwriting_options.insert(k.as_ref().to_string(), v.into());
         }
-        FileGroupReader::new_with_configs_and_options(
+        let reader = FileGroupReader::new_with_configs_and_options(
             self.hudi_configs.clone(),
             overwriting_options,
-        )
+        )?;
+        Ok(reader.excluding_pending(self.timeline.pending_timestamps.clone()))
     }
 
     /// Get all the latest records in the table.
-- 
2.43.0


From 3fe82c23b5e98105f7ede74212fe09b1db8629dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 15/38] fix: do not decode log blocks outside the instant range

---
 .../core/src/file_group/log_file/content.rs   | 44 +++++++++++++++----
 crates/core/src/file_group/log_file/reader.rs | 20 +++++----
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/crates/core/src/file_group/log_file/content.rs b/crates/core/src/file_group/log_file/content.rs
index c6564bc..4494a33 100644
--- a/crates/core/src/file_group/log_file/content.rs
+++ b/crates/core/src/file_group/log_file/content.rs
@@ -28,7 +28,7 @@ use arrow_array::RecordBatch;
 use bytes::Bytes;
 use parquet::arrow::arrow_reader::ParquetRecordBatchReader;
 use std::collections::HashMap;
-use std::io::{Read, Seek};
+use std::io::{self, Read, Seek};
 use std::sync::Arc;
 
 #[allow(dead_code)]
@@ -44,6 +44,39 @@ impl Decoder {
             hudi_configs,
         }
     }
+
+    fn read_content_length(
+        reader: &mut impl Read,
+        log_format_version: &LogFormatVersion,
+        fallback_length: u64,
+    ) -> Result<u64> {
+        if log_format_version.has_content_length() {
+            let mut content_length_buf = [0u8; 8];
+            reader.read_exact(&mut content_length_buf)?;
+            Ok(u64::from_be_bytes(content_length_buf))
+        } else {
+            Ok(fallback_length)
+        }
+    }
+
+    /// Skip the content of a block without decoding it.
+    pub fn skip_content(
+        &self,
+        reader: &mut (impl Read + Seek),
+        log_format_version: &LogFormatVersion,
+        fallback_length: u64,
+    ) -> Result<()> {
+        let content_length =
+            Self::read_content_length(reader, log_format_version, fallback_length)?;
+        let skipped_length = io::copy(&mut reader.take(content_length), &mut io::sink())?;
+        if skipped_length != content_length {
+            return Err(CoreError::LogBlockError(format!(
+                "Expected block content of {content_length} bytes but got {skipped_length}"
+            )));
+        }
+        Ok(())
+    }
+
     pub fn decode_content(
         &self,
         reader: &mut (impl Read + Seek),
@@ -52,13 +85,8 @@ impl Decoder {
         block_type: &BlockType,
         header: &HashMap<BlockMetadataKey, String>,
     ) -> Result<Vec<RecordBatch>> {
-        let content_length = if log_format_version.has_content_length() {
-            let mut content_length_buf = [0u8; 8];
-            reader.read_exact(&mut content_length_buf)?;
-            u64::from_be_bytes(content_length_buf)
-        } else {
-            fallback_length
-        };
+        let content_length =
+            Self::read_content_length(reader, log_format_version, fallback_length)?;
 
         let mut reader = reader.by_ref().take(content_length);
         match block_type {
diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index f9e3901..492ec35 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -240,17 +240,21 @@ impl<R: Read + Seek> LogFileReader<R> {
             // Command blocks apply regardless of the instant range: the data of a rolled back
             // instant must not be read, no matter when the rollback happened.
             skipped = block_type != BlockType::Command;
-            // TODO skip reading block
         }
 
         let decoder = Decoder::new(self.hudi_configs.clone());
-        let record_batches = decoder.decode_content(
-            self.reader.by_ref(),
-            &format_version,
-            block_length,
-            &block_type,
-            &header,
-        )?;
+        let record_batches = if skipped {
+            decoder.skip_content(self.reader.by_ref(), &format_version, block_length)?;
+            Vec::new()
+        } else {
+            decoder.decode_content(
+                self.reader.by_ref(),
+                &format_version,
+                block_length,
+                &block_type,
+                &header,
+            )?
+        };
         let footer = self.read_block_metadata(BlockMetadataType::Footer, &format_version)?;
         let _ = self.read_total_block_length(&format_version)?;
 
-- 
2.43.0


From fb1c086d80ccd4c7264a609153c0e148aaa18e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 16/38] fix: do not allocate for corrupted log block metadata
 lengths

---
 crates/core/src/file_group/log_file/reader.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 492ec35..4d93d8f 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -176,8 +176,8 @@ impl<R: Read + Seek> LogFileReader<R> {
         let mut num_entries_buf = [0u8; 4];
         self.reader.read_exact(&mut num_entries_buf)?;
         let num_entries = u32::from_be_bytes(num_entries_buf);
-        let mut metadata: HashMap<BlockMetadataKey, String> =
-            HashMap::with_capacity(num_entries as usize);
+        // Do not allocate upfront, as the number and lengths of the entries may be corrupted.
+        let mut metadata: HashMap<BlockMetadataKey, String> = HashMap::new();
         for _ in 0..num_entries {
             let mut key_buf = [0u8; 4];
             self.reader.read_exact(&mut key_buf)?;
@@ -185,8 +185,17 @@ impl<R: Read + Seek> LogFileReader<R> {
             let mut value_len_buf = [0u8; 4];
             self.reader.read_exact(&mut value_len_buf)?;
             let value_len = u32::from_be_bytes(value_len_buf);
-            let mut value_buf = vec![0u8; value_len as usize];
-            self.reader.read_exact(&mut value_buf)?;
+            let mut value_buf = Vec::new();
+            self.reader
+                .by_ref()
+                .take(value_len as u64)
+                .read_to_end(&mut value_buf)?;
+            if value_buf.len() != value_len as usize {
+                return Err(CoreError::LogFormatError(format!(
+                    "Expected block metadata of {value_len} bytes but got {}",
+                    value_buf.len()
+                )));
+            }
             let value =
                 String::from_utf8(value_buf).map_err(|e| CoreError::Utf8Error(e.utf8_error()))?;
             metadata.insert(key, value);
-- 
2.43.0


From c804a4b1a9e06e4d67a9e9f02ae434a6787ebe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 17/38] fix: reject truncated avro records in log blocks
 instead of reading nulls

---
 crates/core/src/file_group/log_file/avro.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/file_group/log_file/avro.rs b/crates/core/src/file_group/log_file/avro.rs
index 8c1d6f1..6111496 100644
--- a/crates/core/src/file_group/log_file/avro.rs
+++ b/crates/core/src/file_group/log_file/avro.rs
@@ -19,7 +19,7 @@
 use apache_avro::types::Value as AvroValue;
 use apache_avro::AvroResult;
 use apache_avro::{from_avro_datum, Schema as AvroSchema};
-use std::io::Read;
+use std::io::{self, Read};
 
 pub struct AvroDataBlockContentReader<R: Read> {
     reader: R,
@@ -55,9 +55,21 @@ impl<R: Read> Iterator for AvroDataBlockContentReader<R> {
 
         let record_content_length = u32::from_be_bytes(record_content_length);
 
-        let mut record_reader = (&mut self.reader).take(record_content_length as u64);
+        // Read the whole record before decoding, as the decoder takes the end of the input for null.
+        let mut record_content = Vec::new();
+        match (&mut self.reader)
+            .take(record_content_length as u64)
+            .read_to_end(&mut record_content)
+        {
+            Ok(n) if n == record_content_length as usize => {}
+            Ok(_) => {
+                let e = io::Error::from(io::ErrorKind::UnexpectedEof);
+                return Some(Err(apache_avro::Error::ReadBytes(e)));
+            }
+            Err(e) => return Some(Err(apache_avro::Error::ReadBytes(e))),
+        }
 
-        let result = from_avro_datum(&self.writer_schema, &mut record_reader, None);
+        let result = from_avro_datum(&self.writer_schema, &mut record_content.as_slice(), None);
 
         Some(result)
     }
-- 
2.43.0


From 9a0594468af4de500eaec48ce412e8b5635feb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 18/38] fix: do not read beyond the latest commit of the loaded
 timeline

---
 crates/core/src/table/mod.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index ddbcc84..fc1c512 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -314,11 +314,24 @@ impl Table {
         self.get_file_slices_internal(timestamp, &filters).await
     }
 
+    /// Cap the timestamp to read at to the latest commit of the loaded timeline: what is written
+    /// later belongs to actions that the timeline does not know, whether completed or not.
+    ///
+    /// Return [None] if the timeline has no commit.
+    fn cap_timestamp<'a>(&'a self, timestamp: &'a str) -> Option<&'a str> {
+        self.timeline
+            .get_latest_commit_timestamp_as_option()
+            .map(|latest| timestamp.min(latest))
+    }
+
     async fn get_file_slices_internal(
         &self,
         timestamp: &str,
         filters: &[Filter],
     ) -> Result<Vec<FileSlice>> {
+        let Some(timestamp) = self.cap_timestamp(timestamp) else {
+            return Ok(Vec::new());
+        };
         let excludes = self
             .timeline
             .get_replaced_file_groups_as_of(timestamp)
@@ -432,6 +445,9 @@ impl Table {
         timestamp: &str,
         filters: &[Filter],
     ) -> Result<Vec<RecordBatch>> {
+        let Some(timestamp) = self.cap_timestamp(timestamp) else {
+            return Ok(Vec::new());
+        };
         let file_slices = self.get_file_slices_internal(timestamp, filters).await?;
         let fg_reader = self.create_file_group_reader_with_options([(
             HudiReadConfig::FileGroupEndTimestamp,
@@ -457,9 +473,10 @@ impl Table {
         end_timestamp: Option<&str>,
     ) -> Result<Vec<RecordBatch>> {
         // If the end timestamp is not provided, use the latest commit timestamp.
-        let Some(end_timestamp) =
-            end_timestamp.or_else(|| self.timeline.get_latest_commit_timestamp_as_option())
-        else {
+        let Some(end_timestamp) = end_timestamp.map_or_else(
+            || self.timeline.get_latest_commit_timestamp_as_option(),
+            |end| self.cap_timestamp(end),
+        ) else {
             return Ok(Vec::new());
         };
 
-- 
2.43.0


From c899e83423c606db73832f71437807bedf75159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 19/38] fix: accept whitespace around the delimiter in
 hudi-defaults.conf

---
 crates/core/src/config/util.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/config/util.rs b/crates/core/src/config/util.rs
index 33921c6..ef1f073 100644
--- a/crates/core/src/config/util.rs
+++ b/crates/core/src/config/util.rs
@@ -72,7 +72,17 @@ pub fn parse_data_for_options(data: &Bytes, split_chars: &str) -> Result<HashMap
             )))?
             .trim()
             .to_owned();
-        let value = parts.next().unwrap_or("").trim().to_owned();
+        let mut value = parts.next().unwrap_or("").trim();
+        let delimiter = trimmed_line.chars().find(|c| split_chars.contains(*c));
+        if delimiter.is_some_and(char::is_whitespace) {
+            // The whitespace may only surround the actual delimiter, as in `key = value`.
+            if let Some(v) =
+                value.strip_prefix(|c: char| !c.is_whitespace() && split_chars.contains(c))
+            {
+                value = v.trim();
+            }
+        }
+        let value = value.to_owned();
         options.insert(key, value);
     }
 
-- 
2.43.0


From 75a978bb4dd8dc9af04cd59449b4ba6adc1ba729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 20/38] fix: a listing parallelism of 0 made partitioned reads
 hang

---
 crates/core/src/table/listing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index d3c4896..a26e6fd 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -191,7 +191,8 @@ impl FileLister {
         let parallelism = self
             .hudi_configs
             .get_or_default(ListingParallelism)
-            .to::<usize>();
+            .to::<usize>()
+            .max(1); // a buffer of no futures never completes
         stream::iter(pruned_partition_paths)
             .map(|p| async move {
                 let file_groups = self.list_file_groups_for_partition(&p).await?;
-- 
2.43.0


From a11d7befa00d2f2bd04b8148c05018db7593b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 21/38] fix: decode boolean lists behind avro unions

Nullable boolean lists lost their values and nullable boolean items
always became null, as the union wrapper was not resolved.
---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 4ada3ad..e69c336 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -457,11 +457,11 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 let mut bool_nulls = MutableBuffer::new(num_bytes).with_bitset(num_bytes, true);
                 let mut curr_index = 0;
                 rows.iter().for_each(|v| {
-                    if let Value::Array(vs) = v {
+                    if let Value::Array(vs) = maybe_resolve_union(v) {
                         vs.iter().for_each(|value| {
-                            if let Value::Boolean(child) = value {
+                            if let Some(child) = resolve_boolean(value) {
                                 // if valid boolean, append value
-                                if *child {
+                                if child {
                                     bit_util::set_bit(&mut bool_values, curr_index);
                                 }
                             } else {
-- 
2.43.0


From 0e935db8126e68e1e9d8e181863fac98f5eccde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 22/38] fix: keep avro list items aligned when a list of lists
 or records is null

A null list was counted as no item in the offsets but as one item in the
values, which shifted the items of all following rows. The fields of
records in lists of lists were looked up under the wrong path and became
null.
---
 .../core/src/avro_to_arrow/arrow_array_reader.rs  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index e69c336..e97b4ae 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -509,7 +509,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 .into_data(),
             DataType::List(field) => {
                 let child = self.build_nested_list_array::<i32>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
@@ -517,7 +517,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
             }
             DataType::LargeList(field) => {
                 let child = self.build_nested_list_array::<i64>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
@@ -529,6 +529,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     .iter()
                     .map(|row| match maybe_resolve_union(row) {
                         Value::Array(values) => values.len(),
+                        Value::Null => 0,
                         _ => 1,
                     })
                     .sum();
@@ -557,6 +558,9 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                                     other => panic!("expected Record, got {other:?}"),
                                 })
                                 .collect::<Vec<&Vec<(String, Value)>>>()
+                        } else if let Value::Null = row {
+                            // a null list has no items
+                            vec![]
                         } else {
                             struct_index += 1;
                             vec![&null_struct_array]
@@ -806,8 +810,8 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
     }
 }
 
-/// Flattens a list of Avro values, by flattening lists, and treating all other values as
-/// single-value lists.
+/// Flattens a list of Avro values, by flattening lists, dropping nulls and treating all other
+/// values as single-value lists.
 /// This is used to read into nested lists (list of list, list of struct) and non-dictionary lists.
 #[inline]
 fn flatten_values<'a>(values: &[&'a Value]) -> Vec<&'a Value> {
@@ -817,6 +821,9 @@ fn flatten_values<'a>(values: &[&'a Value]) -> Vec<&'a Value> {
             let v = maybe_resolve_union(row);
             if let Value::Array(values) = v {
                 values.iter().collect()
+            } else if let Value::Null = v {
+                // a null list has no items
+                vec![]
             } else {
                 // we interpret a scalar as a single-value list to minimise data loss
                 vec![v]
-- 
2.43.0


From 242ea922e1c497738cac9ff29cb5e6434050b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 23/38] fix: do not panic on avro nanosecond and local
 timestamps and type references

---
 .../core/src/avro_to_arrow/arrow_array_reader.rs   |  6 +++++-
 crates/core/src/avro_to_arrow/schema.rs            | 14 ++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index e97b4ae..fa6c701 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -966,7 +966,11 @@ where
             Value::Long(l)
             | Value::TimeMicros(l)
             | Value::TimestampMillis(l)
-            | Value::TimestampMicros(l) => NumCast::from(*l),
+            | Value::TimestampMicros(l)
+            | Value::TimestampNanos(l)
+            | Value::LocalTimestampMillis(l)
+            | Value::LocalTimestampMicros(l)
+            | Value::LocalTimestampNanos(l) => NumCast::from(*l),
             Value::Float(f) => NumCast::from(*f),
             Value::Double(f) => NumCast::from(*f),
             Value::Duration(_d) => unimplemented!(), // shenanigans type
diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index afb0773..fed3313 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -21,6 +21,7 @@ use apache_avro::types::Value;
 use apache_avro::Schema as AvroSchema;
 use arrow::datatypes::{DataType, IntervalUnit, Schema, TimeUnit, UnionMode};
 use arrow::datatypes::{Field, UnionFields};
+use arrow::error::ArrowError;
 use std::collections::HashMap;
 use std::sync::Arc;
 
@@ -61,7 +62,12 @@ fn schema_to_field_with_props(
 ) -> Result<Field> {
     let mut nullable = nullable;
     let field_type: DataType = match schema {
-        AvroSchema::Ref { .. } => todo!("Add support for AvroSchema::Ref"),
+        AvroSchema::Ref { name } => {
+            return Err(CoreError::from(ArrowError::SchemaError(format!(
+                "reference to avro type {} not supported",
+                name.fullname(None)
+            ))))
+        }
         AvroSchema::Null => DataType::Null,
         AvroSchema::Boolean => DataType::Boolean,
         AvroSchema::Int => DataType::Int32,
@@ -140,9 +146,9 @@ fn schema_to_field_with_props(
         AvroSchema::TimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
         AvroSchema::TimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
         AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
-        AvroSchema::LocalTimestampMillis => todo!(),
-        AvroSchema::LocalTimestampMicros => todo!(),
-        AvroSchema::LocalTimestampNanos => todo!(),
+        AvroSchema::LocalTimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
+        AvroSchema::LocalTimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
+        AvroSchema::LocalTimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
         AvroSchema::Duration => DataType::Duration(TimeUnit::Millisecond),
     };
 
-- 
2.43.0


From 2acf225718803ddd0bd1363344a48747ead1b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 24/38] fix: keep avro uuid values instead of reading them as
 null

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index fa6c701..fc81983 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -918,6 +918,7 @@ fn resolve_fixed(v: &Value, size: usize) -> Option<Vec<u8>> {
                 None
             }
         }
+        Value::Uuid(uuid) if size == 16 => Some(uuid.as_bytes().to_vec()),
         _ => None,
     }
 }
-- 
2.43.0


From 245f280b4ed1aef9a12b4cfdeac2b60d03d0712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 25/38] fix: swap the operator when converting DataFusion
 filters with the literal first

`1 < col` became the filter `col < 1`, which prunes matching partitions.
---
 crates/datafusion/src/util/expr.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 7eb0eed..3640906 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -49,16 +49,17 @@ pub fn exprs_to_filters(exprs: &[Expr]) -> Vec<(String, String, String)> {
 /// Converts a binary expression [`Expr::BinaryExpr`] into a [`HudiFilter`].
 fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     // extract the column and literal from the binary expression
-    let (column, literal) = match (&*binary_expr.left, &*binary_expr.right) {
-        (Expr::Column(col), Expr::Literal(lit)) => (col, lit),
-        (Expr::Literal(lit), Expr::Column(col)) => (col, lit),
+    let (column, op, literal) = match (&*binary_expr.left, &*binary_expr.right) {
+        (Expr::Column(col), Expr::Literal(lit)) => (col, binary_expr.op, lit),
+        // the operands are swapped
+        (Expr::Literal(lit), Expr::Column(col)) => (col, binary_expr.op.swap()?, lit),
         _ => return None,
     };
 
     let field = col(column.name());
     let lit_str = literal.to_string();
 
-    let filter = match binary_expr.op {
+    let filter = match op {
         Operator::Eq => field.eq(lit_str),
         Operator::NotEq => field.ne(lit_str),
         Operator::Lt => field.lt(lit_str),
-- 
2.43.0


From 0665119b8840f9e82523b112210a4b93345be557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 26/38] fix: push only partition filters down to the file
 slices in DataFusion scans

A comparison of any other column with a literal made the query fail.
---
 crates/datafusion/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 9beb612..1e9d3c9 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -176,7 +176,14 @@ impl TableProvider for HudiDataSource {
         self.table.register_storage(state.runtime_env().clone());
 
         // Convert Datafusion `Expr` to `Filter`
-        let pushdown_filters = exprs_to_filters(filters);
+        let mut pushdown_filters = exprs_to_filters(filters);
+        // File slices can only be filtered by partition fields
+        let partition_schema = self
+            .table
+            .get_partition_schema()
+            .await
+            .map_err(|e| Execution(format!("Failed to get partition schema: {}", e)))?;
+        pushdown_filters.retain(|(field, _, _)| partition_schema.field_with_name(field).is_ok());
         let file_slices = self
             .table
             .get_file_slices_splits(self.get_input_partitions(), &pushdown_filters.as_strs())
-- 
2.43.0


From 364203d9a8062decc35b84903b8eac0939134c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 27/38] fix: do not encode file paths twice in DataFusion scans

Files of partitions or tables with special characters in their paths were
not found.
---
 crates/core/src/storage/util.rs | 6 ++++++
 crates/datafusion/src/lib.rs    | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/storage/util.rs b/crates/core/src/storage/util.rs
index b26e865..35a538a 100644
--- a/crates/core/src/storage/util.rs
+++ b/crates/core/src/storage/util.rs
@@ -18,6 +18,7 @@
  */
 
 //! Utility functions for storage.
+use object_store::path::Path as ObjPath;
 use url::Url;
 
 use crate::storage::error::StorageError::{InvalidPath, UrlParseError};
@@ -43,6 +44,11 @@ pub fn get_scheme_authority(url: &Url) -> String {
     format!("{}://{}", url.scheme(), url.authority())
 }
 
+/// Returns the path in the object store that a URL denotes.
+pub fn to_object_path(url: &Url) -> Result<ObjPath> {
+    ObjPath::from_url_path(url.path()).map_err(|e| InvalidPath(e.to_string()))
+}
+
 /// Joins a base URL with a list of segments.
 pub fn join_url_segments(base_url: &Url, segments: &[&str]) -> Result<Url> {
     let mut url = base_url.clone();
diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 1e9d3c9..fee4180 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -45,7 +45,7 @@ use datafusion_physical_expr::create_physical_expr;
 use crate::util::expr::exprs_to_filters;
 use hudi_core::config::read::HudiReadConfig::InputPartitions;
 use hudi_core::config::util::empty_options;
-use hudi_core::storage::util::{get_scheme_authority, join_url_segments};
+use hudi_core::storage::util::{get_scheme_authority, join_url_segments, to_object_path};
 use hudi_core::table::Table as HudiTable;
 use hudi_core::util::StrTupleRef;
 
@@ -202,7 +202,10 @@ impl TableProvider for HudiDataSource {
                 let url = join_url_segments(&base_url, &[relative_path.as_str()])
                     .map_err(|e| Execution(format!("Failed to join URL segments: {e:?}")))?;
                 let size = f.base_file.file_metadata.as_ref().map_or(0, |m| m.size);
-                let partitioned_file = PartitionedFile::new(url.path(), size as u64);
+                let mut partitioned_file = PartitionedFile::new("", size as u64);
+                // The URL path is encoded already
+                partitioned_file.object_meta.location = to_object_path(&url)
+                    .map_err(|e| Execution(format!("Failed to get object path: {e:?}")))?;
                 parquet_file_group_vec.push(partitioned_file);
             }
             parquet_file_groups.push(parquet_file_group_vec)
-- 
2.43.0


From fcaa6048ffde0f7652a820fc3691eda96a21e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:46 +0000
Subject: [PATCH 28/38] fix: render DataFusion literals so that they cast back
 to the partition type

Comparing a timestamp or decimal partition field with a literal, or any
partition field with NULL, made the query fail.
---
 crates/datafusion/src/util/expr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 3640906..f985023 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -17,7 +17,9 @@
  * under the License.
  */
 
+use arrow_schema::DataType;
 use datafusion::logical_expr::Operator;
+use datafusion_common::ScalarValue;
 use datafusion_expr::{BinaryExpr, Expr};
 use hudi_core::expr::filter::{col, Filter as HudiFilter};
 
@@ -57,7 +59,11 @@ fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     };
 
     let field = col(column.name());
-    let lit_str = literal.to_string();
+    // The display form of some types, like timestamps and decimals, can not be cast back.
+    let lit_str = match literal.cast_to(&DataType::Utf8).ok()? {
+        ScalarValue::Utf8(Some(value)) => value,
+        _ => return None,
+    };
 
     let filter = match op {
         Operator::Eq => field.eq(lit_str),
@@ -85,7 +91,7 @@ fn not_expr_to_filter(not_expr: &Expr) -> Option<HudiFilter> {
 #[cfg(test)]
 mod tests {
     use super::*;
-    use arrow_schema::{DataType, Field, Schema};
+    use arrow_schema::{Field, Schema};
     use datafusion::logical_expr::{col, lit};
     use datafusion_expr::{BinaryExpr, Expr};
     use hudi_core::expr::ExprOperator;
-- 
2.43.0


From e27ae4147073533f27add7e649bee4acb2ff189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 29/38] verif: read the schema of a DataFusion source on the
 calling thread under hudi_verif

---
 crates/core/src/verif_hooks.rs | 14 ++++++++++++++
 crates/datafusion/src/lib.rs   |  9 +++++++++
 2 files changed, 23 insertions(+)

diff --git a/crates/core/src/verif_hooks.rs b/crates/core/src/verif_hooks.rs
index 769a2dc..839e0a0 100644
--- a/crates/core/src/verif_hooks.rs
+++ b/crates/core/src/verif_hooks.rs
@@ -22,7 +22,10 @@
 //! and name the instant range type that the public log file readers take as an argument.
 
 use object_store::ObjectStore;
+use std::future::Future;
+use std::pin::pin;
 use std::sync::{Arc, RwLock};
+use std::task::{Context, Poll};
 
 pub use crate::timeline::selector::InstantRange;
 
@@ -36,3 +39,14 @@ pub fn set_object_store(store: Option<Arc<dyn ObjectStore>>) {
 pub(crate) fn object_store() -> Option<Arc<dyn ObjectStore>> {
     OBJECT_STORE.read().unwrap().clone()
 }
+
+/// Runs a future that never waits, on the calling thread.
+pub fn block_on<F: Future>(future: F) -> F::Output {
+    let mut future = pin!(future);
+    let waker = futures::task::noop_waker();
+    loop {
+        if let Poll::Ready(output) = future.as_mut().poll(&mut Context::from_waker(&waker)) {
+            return output;
+        }
+    }
+}
diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index fee4180..615bbf8 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -23,6 +23,7 @@ use std::any::Any;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
+#[cfg(not(hudi_verif))]
 use std::thread;
 
 use arrow_schema::{Schema, SchemaRef};
@@ -154,11 +155,19 @@ impl TableProvider for HudiDataSource {
 
     fn schema(&self) -> SchemaRef {
         let table = self.table.clone();
+        #[cfg(hudi_verif)]
+        return SchemaRef::from(
+            hudi_core::verif_hooks::block_on(table.get_schema())
+                .unwrap_or_else(|_| Schema::empty()),
+        );
+        #[cfg(not(hudi_verif))]
         let handle = thread::spawn(move || {
             let rt = tokio::runtime::Runtime::new().unwrap();
             rt.block_on(async { table.get_schema().await })
         });
+        #[cfg(not(hudi_verif))]
         let result = handle.join().unwrap().unwrap_or_else(|_| Schema::empty());
+        #[cfg(not(hudi_verif))]
         SchemaRef::from(result)
     }
 
-- 
2.43.0


From 0267be89b9883c0d580faaecef955c87e87857a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 30/38] fix: compare read times given in seconds by time;
 reject malformed ones

---
 crates/core/src/file_group/reader.rs | 10 ++++++--
 crates/core/src/table/mod.rs         | 34 ++++++++++++++++++++--------
 crates/core/src/timeline/instant.rs  |  7 ++++++
 3 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index 4300600..79931e9 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -27,6 +27,7 @@ use crate::file_group::log_file::scanner::LogFileScanner;
 use crate::merge::record_merger::RecordMerger;
 use crate::metadata::meta_field::MetaField;
 use crate::storage::Storage;
+use crate::timeline::instant::Instant;
 use crate::timeline::selector::InstantRange;
 use crate::Result;
 use arrow::compute::and;
@@ -94,6 +95,11 @@ impl FileGroupReader {
         Self::new_with_configs_and_options(hudi_configs, options)
     }
 
+    /// Commit times compare by time to timestamps in milliseconds.
+    fn to_commit_time(timestamp: String) -> String {
+        Instant::to_millis_format(&timestamp).unwrap_or(timestamp)
+    }
+
     fn create_filtering_mask_for_base_file_records(
         &self,
         records: &RecordBatch,
@@ -112,7 +118,7 @@ impl FileGroupReader {
         if let Some(start) = self
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupStartTimestamp)
-            .map(|v| v.to::<String>())
+            .map(|v| Self::to_commit_time(v.to::<String>()))
         {
             let filter: Filter =
                 Filter::try_from((MetaField::CommitTime.as_ref(), ">", start.as_str()))?;
@@ -128,7 +134,7 @@ impl FileGroupReader {
         if let Some(end) = self
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupEndTimestamp)
-            .map(|v| v.to::<String>())
+            .map(|v| Self::to_commit_time(v.to::<String>()))
         {
             let filter = Filter::try_from((MetaField::CommitTime.as_ref(), "<=", end.as_str()))?;
             let filter = SchemableFilter::try_from((filter, schema.as_ref()))?;
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index fc1c512..f092bc9 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -99,6 +99,7 @@ use crate::file_group::reader::FileGroupReader;
 use crate::table::builder::TableBuilder;
 use crate::table::fs_view::FileSystemView;
 use crate::table::partition::PartitionPruner;
+use crate::timeline::instant::Instant;
 use crate::timeline::{Timeline, EARLIEST_START_TIMESTAMP};
 use crate::Result;
 
@@ -256,8 +257,9 @@ impl Table {
         timestamp: &str,
         filters: &[(&str, &str, &str)],
     ) -> Result<Vec<Vec<FileSlice>>> {
+        let timestamp = Instant::to_millis_format(timestamp)?;
         let filters = from_str_tuples(filters)?;
-        self.get_file_slices_splits_internal(n, timestamp, &filters)
+        self.get_file_slices_splits_internal(n, &timestamp, &filters)
             .await
     }
 
@@ -310,8 +312,9 @@ impl Table {
         timestamp: &str,
         filters: &[(&str, &str, &str)],
     ) -> Result<Vec<FileSlice>> {
+        let timestamp = Instant::to_millis_format(timestamp)?;
         let filters = from_str_tuples(filters)?;
-        self.get_file_slices_internal(timestamp, &filters).await
+        self.get_file_slices_internal(&timestamp, &filters).await
     }
 
     /// Cap the timestamp to read at to the latest commit of the loaded timeline: what is written
@@ -357,15 +360,21 @@ impl Table {
         start_timestamp: Option<&str>,
         end_timestamp: Option<&str>,
     ) -> Result<Vec<FileSlice>> {
+        let end_timestamp = end_timestamp.map(Instant::to_millis_format).transpose()?;
+
         // If the end timestamp is not provided, use the latest commit timestamp.
-        let Some(end) =
-            end_timestamp.or_else(|| self.timeline.get_latest_commit_timestamp_as_option())
+        let Some(end) = end_timestamp
+            .as_deref()
+            .or_else(|| self.timeline.get_latest_commit_timestamp_as_option())
         else {
             // No latest commit timestamp means the table is empty.
             return Ok(Vec::new());
         };
 
-        let start = start_timestamp.unwrap_or(EARLIEST_START_TIMESTAMP);
+        let start_timestamp = start_timestamp.map(Instant::to_millis_format).transpose()?;
+        let start = start_timestamp
+            .as_deref()
+            .unwrap_or(EARLIEST_START_TIMESTAMP);
 
         self.get_file_slices_between_internal(start, end).await
     }
@@ -436,8 +445,9 @@ impl Table {
         timestamp: &str,
         filters: &[(&str, &str, &str)],
     ) -> Result<Vec<RecordBatch>> {
+        let timestamp = Instant::to_millis_format(timestamp)?;
         let filters = from_str_tuples(filters)?;
-        self.read_snapshot_internal(timestamp, &filters).await
+        self.read_snapshot_internal(&timestamp, &filters).await
     }
 
     async fn read_snapshot_internal(
@@ -472,20 +482,26 @@ impl Table {
         start_timestamp: &str,
         end_timestamp: Option<&str>,
     ) -> Result<Vec<RecordBatch>> {
+        let end_timestamp = end_timestamp.map(Instant::to_millis_format).transpose()?;
+
         // If the end timestamp is not provided, use the latest commit timestamp.
-        let Some(end_timestamp) = end_timestamp.map_or_else(
+        let Some(end_timestamp) = end_timestamp.as_deref().map_or_else(
             || self.timeline.get_latest_commit_timestamp_as_option(),
             |end| self.cap_timestamp(end),
         ) else {
             return Ok(Vec::new());
         };
 
+        let start_timestamp = Instant::to_millis_format(start_timestamp)?;
         let file_slices = self
-            .get_file_slices_between_internal(start_timestamp, end_timestamp)
+            .get_file_slices_between_internal(&start_timestamp, end_timestamp)
             .await?;
 
         let fg_reader = self.create_file_group_reader_with_options([
-            (HudiReadConfig::FileGroupStartTimestamp, start_timestamp),
+            (
+                HudiReadConfig::FileGroupStartTimestamp,
+                start_timestamp.as_str(),
+            ),
             (HudiReadConfig::FileGroupEndTimestamp, end_timestamp),
         ])?;
 
diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 00663eb..2759f41 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -156,6 +156,13 @@ impl Instant {
         Ok(())
     }
 
+    /// Bring a timestamp in seconds or milliseconds to milliseconds, such that comparing it to the
+    /// timestamps of instants, in either format, compares the times.
+    pub(crate) fn to_millis_format(timestamp: &str) -> Result<String> {
+        Self::parse_naive_datetime(timestamp)?;
+        Ok(format!("{timestamp:0<17}"))
+    }
+
     pub fn parse_datetime(timestamp: &str, timezone: &str) -> Result<DateTime<Utc>> {
         let naive_dt = Self::parse_naive_datetime(timestamp)?;
         Self::convert_to_timezone(naive_dt, timezone)
-- 
2.43.0


From b6f29e5a1a684fb570a0fcaa3a470e0c6df894ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 31/38] fix: resolve the latest avro schema when the latest
 commit has none

---
 crates/core/src/timeline/mod.rs | 37 ++++++++++++++-------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 0f80ef1..617ca0c 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -245,13 +245,6 @@ impl Timeline {
             .map_err(|e| CoreError::Timeline(format!("Failed to get commit metadata: {}", e)))
     }
 
-    async fn get_latest_commit_metadata(&self) -> Result<Map<String, Value>> {
-        match self.completed_commits.iter().next_back() {
-            Some(instant) => self.get_instant_metadata(instant).await,
-            None => Ok(Map::new()),
-        }
-    }
-
     pub(crate) fn get_latest_commit_timestamp_as_option(&self) -> Option<&str> {
         self.completed_commits
             .iter()
@@ -271,20 +264,22 @@ impl Timeline {
 
     /// Get the latest Avro schema string from the [Timeline].
     pub async fn get_latest_avro_schema(&self) -> Result<String> {
-        let commit_metadata = self.get_latest_commit_metadata().await?;
-        commit_metadata
-            .get("extraMetadata")
-            .and_then(|v| v.as_object())
-            .and_then(|obj| {
-                obj.get("schema")
-                    .and_then(|v| v.as_str())
-                    .map(|s| s.to_string())
-            })
-            .ok_or_else(|| {
-                CoreError::CommitMetadata(
-                    "Failed to resolve the latest schema: no schema found".to_string(),
-                )
-            })
+        // The latest commit may not have a schema, e.g., when it only deleted partitions.
+        for instant in self.completed_commits.iter().rev() {
+            let commit_metadata = self.get_instant_metadata(instant).await?;
+            let schema = commit_metadata
+                .get("extraMetadata")
+                .and_then(|v| v.as_object())
+                .and_then(|obj| obj.get("schema"))
+                .and_then(|v| v.as_str())
+                .filter(|s| !s.is_empty());
+            if let Some(schema) = schema {
+                return Ok(schema.to_string());
+            }
+        }
+        Err(CoreError::CommitMetadata(
+            "Failed to resolve the latest schema: no schema found".to_string(),
+        ))
     }
 
     /// Get the latest [arrow_schema::Schema] from the [Timeline].
-- 
2.43.0


From 09a7f60582ee53bd0cf3fd08366674479c620dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 32/38] fix: do not hold file system view locks across awaits

---
 crates/core/src/table/fs_view.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index afa9724..471c5f9 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -79,21 +79,24 @@ impl FileSystemView {
         excluding_file_groups: &HashSet<FileGroup>,
     ) -> Result<Vec<FileSlice>> {
         let mut file_slices = Vec::new();
-        for mut partition_entry in self.partition_to_file_groups.iter_mut() {
+        // The entries are locked while iterating: do not await in this loop, or a concurrent read
+        // that inserts into the map blocks the thread
+        for partition_entry in self.partition_to_file_groups.iter() {
             if !partition_pruner.should_include(partition_entry.key()) {
                 continue;
             }
-            let file_groups = partition_entry.value_mut();
-            for fg in file_groups.iter_mut() {
+            for fg in partition_entry.value() {
                 if excluding_file_groups.contains(fg) {
                     continue;
                 }
-                if let Some(fsl) = fg.get_file_slice_mut_as_of(timestamp) {
-                    fsl.load_metadata_if_needed(&self.storage).await?;
+                if let Some(fsl) = fg.get_file_slice_as_of(timestamp) {
                     file_slices.push(fsl.clone());
                 }
             }
         }
+        for fsl in file_slices.iter_mut() {
+            fsl.load_metadata_if_needed(&self.storage).await?;
+        }
         Ok(file_slices)
     }
 
-- 
2.43.0


From 9eeb88eafd7eccbcf80fa9da1de5ee631c0126ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 33/38] fix: skip CDC log files when listing file groups

---
 crates/core/src/file_group/log_file/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index 93c74ef..a5cdd8c 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -41,6 +41,7 @@ pub struct LogFile {
 }
 
 const LOG_FILE_PREFIX: char = '.';
+const CDC_LOG_FILE_SUFFIX: &str = ".cdc";
 
 impl LogFile {
     /// Parse a log file's name into parts.
@@ -54,7 +55,7 @@ impl LogFile {
     fn parse_file_name(file_name: &str) -> Result<(String, String, String, String, String)> {
         let err_msg = format!("Failed to parse file name '{file_name}' for log file.");
 
-        if !file_name.starts_with(LOG_FILE_PREFIX) {
+        if !file_name.starts_with(LOG_FILE_PREFIX) || file_name.ends_with(CDC_LOG_FILE_SUFFIX) {
             return Err(CoreError::FileGroup(err_msg));
         }
 
-- 
2.43.0


From bfcb87e74f977ea9af66e1e9063ea901a39e0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 34/38] fix: accept local times of the hour repeated when
 clocks are set back

---
 crates/core/src/timeline/instant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 2759f41..a677368 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -191,7 +191,8 @@ impl Instant {
             TimelineTimezoneValue::UTC => Ok(DateTime::from_naive_utc_and_offset(naive_dt, Utc)),
             TimelineTimezoneValue::Local => Ok(Local
                 .from_local_datetime(&naive_dt)
-                .single()
+                // In the hour repeated when clocks are set back, take the earlier instant.
+                .earliest()
                 .ok_or_else(|| CoreError::Timeline("Invalid local datetime".to_string()))?
                 .to_utc()),
         }
-- 
2.43.0


From 92a8e67664a1debcf3615fce8a782f92edb01800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 35/38] fix: match the columns of log records to the base
 file's by name

---
 crates/core/src/merge/record_merger.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/merge/record_merger.rs b/crates/core/src/merge/record_merger.rs
index 74fc568..bd01c10 100644
--- a/crates/core/src/merge/record_merger.rs
+++ b/crates/core/src/merge/record_merger.rs
@@ -79,6 +79,16 @@ impl RecordMerger {
         Self { hudi_configs }
     }
 
+    /// Select the columns of the batch by the names in the given schema.
+    fn align_columns(schema: &SchemaRef, batch: &RecordBatch) -> Result<RecordBatch> {
+        let indices = schema
+            .fields()
+            .iter()
+            .map(|field| batch.schema_ref().index_of(field.name()))
+            .collect::<std::result::Result<Vec<_>, _>>()?;
+        Ok(batch.project(&indices)?)
+    }
+
     pub fn merge_record_batches(
         &self,
         schema: &SchemaRef,
@@ -88,6 +98,12 @@ impl RecordMerger {
             return Ok(RecordBatch::new_empty(schema.clone()));
         }
 
+        // Concatenation goes by position, so first put the columns in the schema's order.
+        let batches = batches
+            .iter()
+            .map(|batch| Self::align_columns(schema, batch))
+            .collect::<Result<Vec<_>>>()?;
+
         let merge_strategy = self
             .hudi_configs
             .get_or_default(RecordMergeStrategy)
@@ -95,11 +111,11 @@ impl RecordMerger {
         let merge_strategy = RecordMergeStrategyValue::from_str(&merge_strategy)?;
         match merge_strategy {
             RecordMergeStrategyValue::AppendOnly => {
-                let concat_batch = concat_batches(schema, batches)?;
+                let concat_batch = concat_batches(schema, &batches)?;
                 Ok(concat_batch)
             }
             RecordMergeStrategyValue::OverwriteWithLatest => {
-                let concat_batch = concat_batches(schema, batches)?;
+                let concat_batch = concat_batches(schema, &batches)?;
                 if concat_batch.num_rows() == 0 {
                     return Ok(concat_batch);
                 }
-- 
2.43.0


From 72bf56abde74158445253c55a8eda1a6ff878815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 36/38] fix: let user-provided cloud options in uppercase take
 precedence over env vars

---
 crates/core/src/table/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 3c5c23a..3b84c92 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -171,7 +171,9 @@ impl TableBuilder {
     }
 
     fn resolve_cloud_env_vars(&mut self) {
-        for (key, value) in env::vars() {
+        // user-provided options in uppercase take precedence over env vars
+        let user_options = self.storage_options.clone();
+        for (key, value) in user_options.into_iter().chain(env::vars()) {
             if Storage::CLOUD_STORAGE_PREFIXES
                 .iter()
                 .any(|prefix| key.starts_with(prefix))
-- 
2.43.0


From 9e9a4debdc6afb728a5c305f4ee25cd45d8a70c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 37/38] fix: report a failure to get the schema when opening a
 table in DataFusion

---
 crates/datafusion/src/lib.rs | 41 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 615bbf8..fe28b1d 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -23,8 +23,6 @@ use std::any::Any;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
-#[cfg(not(hudi_verif))]
-use std::thread;
 
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
@@ -79,6 +77,7 @@ use hudi_core::util::StrTupleRef;
 #[derive(Clone, Debug)]
 pub struct HudiDataSource {
     table: Arc<HudiTable>,
+    schema: SchemaRef,
 }
 
 impl HudiDataSource {
@@ -92,10 +91,24 @@ impl HudiDataSource {
         K: AsRef<str>,
         V: Into<String>,
     {
-        match HudiTable::new_with_options(base_uri, options).await {
-            Ok(t) => Ok(Self { table: Arc::new(t) }),
-            Err(e) => Err(Execution(format!("Failed to create Hudi table: {}", e))),
-        }
+        let table = HudiTable::new_with_options(base_uri, options)
+            .await
+            .map_err(|e| Execution(format!("Failed to create Hudi table: {}", e)))?;
+
+        // A table without commits has no schema yet. In any other case, failing to get the schema
+        // is an error: queries would otherwise see a table without columns.
+        let schema = match table.get_timeline().get_latest_commit_timestamp() {
+            Ok(_) => table
+                .get_schema()
+                .await
+                .map_err(|e| Execution(format!("Failed to get Hudi table schema: {}", e)))?,
+            Err(_) => Schema::empty(),
+        };
+
+        Ok(Self {
+            table: Arc::new(table),
+            schema: SchemaRef::from(schema),
+        })
     }
 
     fn get_input_partitions(&self) -> usize {
@@ -154,21 +167,7 @@ impl TableProvider for HudiDataSource {
     }
 
     fn schema(&self) -> SchemaRef {
-        let table = self.table.clone();
-        #[cfg(hudi_verif)]
-        return SchemaRef::from(
-            hudi_core::verif_hooks::block_on(table.get_schema())
-                .unwrap_or_else(|_| Schema::empty()),
-        );
-        #[cfg(not(hudi_verif))]
-        let handle = thread::spawn(move || {
-            let rt = tokio::runtime::Runtime::new().unwrap();
-            rt.block_on(async { table.get_schema().await })
-        });
-        #[cfg(not(hudi_verif))]
-        let result = handle.join().unwrap().unwrap_or_else(|_| Schema::empty());
-        #[cfg(not(hudi_verif))]
-        SchemaRef::from(result)
+        self.schema.clone()
     }
 
     fn table_type(&self) -> TableType {
-- 
2.43.0


From bdc12c77ccd447b62a41e82cf8221596042c51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 38/38] verif: remove the unused block_on

---
 crates/core/src/verif_hooks.rs | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/crates/core/src/verif_hooks.rs b/crates/core/src/verif_hooks.rs
index 839e0a0..769a2dc 100644
--- a/crates/core/src/verif_hooks.rs
+++ b/crates/core/src/verif_hooks.rs
@@ -22,10 +22,7 @@
 //! and name the instant range type that the public log file readers take as an argument.
 
 use object_store::ObjectStore;
-use std::future::Future;
-use std::pin::pin;
 use std::sync::{Arc, RwLock};
-use std::task::{Context, Poll};
 
 pub use crate::timeline::selector::InstantRange;
 
@@ -39,14 +36,3 @@ pub fn set_object_store(store: Option<Arc<dyn ObjectStore>>) {
 pub(crate) fn object_store() -> Option<Arc<dyn ObjectStore>> {
     OBJECT_STORE.read().unwrap().clone()
 }
-
-/// Runs a future that never waits, on the calling thread.
-pub fn block_on<F: Future>(future: F) -> F::Output {
-    let mut future = pin!(future);
-    let waker = futures::task::noop_waker();
-    loop {
-        if let Poll::Ready(output) = future.as_mut().poll(&mut Context::from_waker(&waker)) {
-            return output;
-        }
-    }
-}
-- 
2.43.0

