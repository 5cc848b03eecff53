From b79affbeb7a36faad2d4b86dd58cc42c1585b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 01/36] fix: resolve full keys to themselves

canonicalize looked the key up and parsed the stored value as a key, and
panicked when the object was missing.
---
 src/ds/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index d35c0e4..e00c4f8 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -31,6 +31,9 @@ pub enum CanonicalizeError {
 
     #[error("error when getting reflog: {_0}")]
     GetReflogError(#[from] GetReflogError),
+
+    #[error("error when looking up object: {_0}")]
+    RawExistsError(#[from] RawExistsError),
 }
 
 #[derive(Debug)]
@@ -256,8 +259,9 @@ pub trait DataStore: Transactional {
             Keyish::Key(s, key) => {
                 err_str = s;
 
-                let k = self.raw_get(&key).unwrap();
-                results.push(k.to_vec());
+                if self.raw_exists(&key)? {
+                    results.push(key);
+                }
             }
             Keyish::Range(s, start, end) => {
                 err_str = s;
-- 
2.43.0


From 823c5a9f3454c0534eaaf100b9fdb7356bf25ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 02/36] fix: do not drop data held in the topmost blob tree
 level

When chunks had been promoted to the last key buffer, the end of put_data
ignored that buffer and returned a key for the remaining data only.
---
 src/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index ee6337c..38c5135 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -86,7 +86,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
 
     current_chunk.extend_from_slice(&chunk_buffer);
 
-    if (0..4).all(|x| key_bufs[x].is_empty()) {
+    if (0..5).all(|x| key_bufs[x].is_empty()) {
         // No chunks were made.
         return Ok(ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?);
     }
@@ -99,7 +99,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     for offset in 0..4 {
         let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;
 
-        if key_bufs[offset].len() == 1 && (1 + offset..4).all(|x| key_bufs[x].is_empty()) {
+        if key_bufs[offset].len() == 1 && (1 + offset..5).all(|x| key_bufs[x].is_empty()) {
             // We know this is safe because key_bufs[offset] has exactly 1 element
             #[allow(clippy::option_unwrap_used)]
             return Ok(key_bufs[offset].pop().unwrap());
-- 
2.43.0


From 6e29bb389a536313271eca6f6d3f2decf6b49119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 03/36] fix: make the key of a file independent of short reads

Chunk boundaries were computed per read, so a reader returning short reads
produced different keys for the same content.
---
 src/file.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 38c5135..9bbe1f6 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -16,7 +16,6 @@ pub enum PutDataError {
 pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key, PutDataError> {
     let mut key_bufs: [Vec<Key>; 5] = Default::default();
 
-    let mut read_buffer = [0u8; 1 << 16usize];
     let mut chunk_buffer: Vec<u8> = Vec::new();
     let mut current_chunk = Vec::new();
 
@@ -65,21 +64,18 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
                 }
             }
         } else {
-            use std::io::ErrorKind;
             current_chunk.extend_from_slice(&chunk_buffer);
             chunk_buffer.clear();
 
-            match data.read(&mut read_buffer) {
-                Ok(len) => {
-                    if len == 0 {
-                        break;
-                    }
-                    chunk_buffer.extend_from_slice(&read_buffer[0..len]);
-                }
-                Err(e) if e.kind() == ErrorKind::Interrupted => {}
-                Err(e) => {
-                    return Err(e.into());
-                }
+            // Always fill the whole buffer, so where chunks are cut does not depend on how many
+            // bytes each read happens to return. (read_to_end retries interrupted reads.)
+            let len = data
+                .by_ref()
+                .take(READ_BUFFER_SIZE)
+                .read_to_end(&mut chunk_buffer)?;
+
+            if len == 0 {
+                break;
             }
         }
     }
@@ -154,6 +150,8 @@ pub fn read_data<DS: DataStore, W: Write>(
     Ok(())
 }
 
+const READ_BUFFER_SIZE: u64 = 1 << 16;
+
 const BLOB_ZERO_COUNT: u32 = 13;
 const BLOB_ZERO_COUNT_MAX: u32 = BLOB_ZERO_COUNT + 2;
 
-- 
2.43.0


From b4fb67f31677210d80cca33b20f7fd79c3893401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:12 +0000
Subject: [PATCH 04/36] fix: restore empty directories when fetching

---
 src/dir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index d9d65fd..18a3304 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -240,6 +240,8 @@ pub fn get_fs_item<DS: DataStore>(
 
     match fsobj.itemtype {
         FSItemType::Dir => {
+            std::fs::create_dir_all(path)?;
+
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 get_fs_item(ds, child, &path.join(&name))?;
             }
-- 
2.43.0


From 6b0d2bf53b5c37fdf6716a982dfd36b34680b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 05/36] fix: refuse directory entry names that lead out of the
 destination

A stored name such as ".." or an absolute path made fetch write outside of
the directory it was given.
---
 src/dir.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 18a3304..c2c8944 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -10,7 +10,7 @@ use crate::{
 use std::collections::{HashMap, HashSet};
 use std::convert::TryInto;
 use std::fs::DirEntry;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use thiserror::Error;
 
 #[derive(Debug, serde::Serialize, serde::Deserialize)]
@@ -227,6 +227,20 @@ pub enum GetFsItemError {
 
     #[error("error when decoding object: {_0}")]
     DecodeError(#[from] serde_cbor::error::Error),
+
+    #[error("invalid name in directory: {_0:?}")]
+    InvalidName(PathBuf),
+}
+
+/// Names stored in a directory object must be a single path component, otherwise joining them to
+/// a path could lead out of that directory.
+fn is_plain_name(name: &Path) -> bool {
+    let mut components = name.components();
+
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(x)), None) => x == name.as_os_str(),
+        _ => false,
+    }
 }
 
 pub fn get_fs_item<DS: DataStore>(
@@ -243,6 +257,10 @@ pub fn get_fs_item<DS: DataStore>(
             std::fs::create_dir_all(path)?;
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
+                if !is_plain_name(name) {
+                    return Err(GetFsItemError::InvalidName(name.clone()));
+                }
+
                 get_fs_item(ds, child, &path.join(&name))?;
             }
         }
@@ -279,6 +297,9 @@ pub enum CheckoutFsItemError {
 
     #[error("found unimplemented file type")]
     UnimplementedFileTypeFound,
+
+    #[error("invalid name in directory: {_0:?}")]
+    InvalidName(PathBuf),
 }
 
 pub fn checkout_fs_item<DS: DataStore>(
@@ -322,6 +343,10 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
+                if !is_plain_name(name) {
+                    return Err(CheckoutFsItemError::InvalidName(name.clone()));
+                }
+
                 std::fs::create_dir_all(&path)?;
 
                 checkout_fs_item(ds, child, &path.join(&name), filter)?;
-- 
2.43.0


From d643fe4da4cb96c4adc78e226c45cba3fa4dc294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:14 +0000
Subject: [PATCH 06/36] fix: store directory entries in a defined order

The key of a directory depended on the order in which the file system happens
to list it.
---
 src/dir.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index c2c8944..0b3166b 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -89,17 +89,15 @@ pub fn put_fs_item<DS: DataStore>(
         let mut result = Vec::new();
         let mut result_names = Vec::new();
 
-        let entries = std::fs::read_dir(path)?;
+        let mut entries = std::fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;
 
-        for entry in entries {
-            match entry {
-                Ok(direntry) => {
-                    if filter(&direntry) {
-                        result.push(put_fs_item(ds, &direntry.path(), filter)?);
-                        result_names.push(direntry.file_name().into());
-                    }
-                }
-                Err(e) => return Err(e.into()),
+        // The order of read_dir is unspecified, but the key of a directory must not depend on it.
+        entries.sort_by_key(DirEntry::file_name);
+
+        for direntry in entries {
+            if filter(&direntry) {
+                result.push(put_fs_item(ds, &direntry.path(), filter)?);
+                result_names.push(direntry.file_name().into());
             }
         }
 
-- 
2.43.0


From de15903e2e0b9e003ac75dc130ef26b4947b1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 07/36] fix: check where checkout may write before truncating
 the file

---
 src/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 0b3166b..95110e2 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -351,10 +351,10 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
         }
         FSItemType::File => {
-            let mut f = std::fs::File::create(path)?;
-
             assert!(path.starts_with("/home/jess/src/snapcd/repo"));
 
+            let mut f = std::fs::File::create(path)?;
+
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
         }
     }
-- 
2.43.0


From 3eedee5f78afe8fd04356132d0ac71b2e1e334cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 08/36] fix: create missing directories on checkout

read_dir failed for every directory that did not exist yet.
---
 src/dir.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 95110e2..0ad0668 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -316,6 +316,11 @@ pub fn checkout_fs_item<DS: DataStore>(
 
             let mut fs_items = HashSet::new();
 
+            if !path.exists() {
+                assert!(path.starts_with("/home/jess/src/snapcd/repo"));
+                std::fs::create_dir_all(&path)?;
+            }
+
             for item in std::fs::read_dir(&path)? {
                 let ok_item = item?;
 
@@ -345,8 +350,6 @@ pub fn checkout_fs_item<DS: DataStore>(
                     return Err(CheckoutFsItemError::InvalidName(name.clone()));
                 }
 
-                std::fs::create_dir_all(&path)?;
-
                 checkout_fs_item(ds, child, &path.join(&name), filter)?;
             }
         }
-- 
2.43.0


From bd96db2f55293b1b68fe2750b5ed0a0fe73e0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 09/36] fix: report when the transaction of a command cannot be
 committed

The result was ignored, so a command could print a key and exit successfully
although nothing had been stored.
---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1547ca6..1bdad57 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -767,7 +767,9 @@ fn main() -> CMDResult {
         common: opt.common,
     };
 
-    state.ds_state.as_mut().map(|x| x.ds.begin_trans());
+    if let Some(x) = state.ds_state.as_mut() {
+        x.ds.begin_trans()?;
+    }
     state.cache.begin_trans()?;
 
     let result = match opt.cmd {
@@ -793,7 +795,9 @@ fn main() -> CMDResult {
         state.ds_state.as_mut().map(|x| x.ds.rollback());
         state.cache.rollback()?;
     } else {
-        state.ds_state.as_mut().map(|x| x.ds.commit());
+        if let Some(x) = state.ds_state.as_mut() {
+            x.ds.commit()?;
+        }
         state.cache.commit()?;
     }
 
-- 
2.43.0


From c36dc3f8f59d245ea7c97e5fcbdd832d48f85a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 10/36] fix: keep HEAD when init is run in an existing
 repository

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1bdad57..803da12 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -464,7 +464,10 @@ fn init(state: &mut State, _args: InitArgs) -> CMDResult {
     std::fs::create_dir_all(&state.common.db_path)?;
     let ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
 
-    ds.put_head("master")?;
+    // Running init again must not reset the head of an existing repository.
+    if ds.get_head()?.is_none() {
+        ds.put_head("master")?;
+    }
 
     Ok(())
 }
-- 
2.43.0


From 72ae6b31a22d5eb76b17979475f79d2898e7086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 11/36] fix: detect corrupt objects when reading them

The data of an object was never checked against its key, so damaged data was
returned as if it were good.
---
 src/ds/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index e00c4f8..c241d14 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -103,6 +103,9 @@ pub enum CommitTransError {
 pub enum RawGetError {
     #[error(transparent)]
     DSerror(#[from] DSError),
+
+    #[error("object {_0} is corrupt, its data does not match its key")]
+    Corrupt(key::Key),
 }
 
 #[derive(Debug, Error)]
@@ -202,6 +205,10 @@ pub trait DataStore: Transactional {
     fn get(&self, key: key::Key) -> Result<Cow<'_, [u8]>, RawGetError> {
         let results = self.raw_get(&key.as_db_key())?;
 
+        if self.hash(&results) != key {
+            return Err(RawGetError::Corrupt(key));
+        }
+
         Ok(results)
     }
 
-- 
2.43.0


From 347f12e9d3b56576c91d73899cdcdbc87d7422f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 12/36] fix: look up added files below the compared path

They were opened relative to the current directory, so compare and status
failed with added files unless run at the root of the compared path.
---
 src/diff.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index fc487b2..4abc7b8 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -98,7 +98,10 @@ pub fn compare<'a>(
                         // this is a file
                         match dir::hash_fs_item(
                             ds,
-                            x,
+                            &from_path
+                                .as_ref()
+                                .expect("should have been populated")
+                                .join(x),
                             *cache.expect("you must pass a cache if you're hashing the fs"),
                         ) {
                             Ok(h) => Some(h.into()),
-- 
2.43.0


From 77f9ac51175ee92262d142edf576f1b4b5565ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 13/36] fix: do not panic on deleted paths when comparing

A path that is only in the old tree was looked up in the new one.
---
 src/diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index 4abc7b8..15214b7 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -123,7 +123,7 @@ pub fn compare<'a>(
         .map(|x| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+            is_dir: to_map[x].1,
         })
         .collect();
 
-- 
2.43.0


From 98611e4132c58548d0c87ab3183f50ac664f44df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 14/36] fix: compare directories by what they contain

show and log panicked on a directory whose content had changed, and a file
replaced by a directory (or the reverse) was missed or treated as modified.
---
 src/diff.rs | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 15214b7..6a86411 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -132,13 +132,32 @@ pub fn compare<'a>(
     let mut modified = Vec::new();
 
     for path in in_both {
+        let t = to_map[path];
+        let from_is_dir = from_map.as_ref().either(|y| y[path], |y| y[path].1);
+
+        if from_is_dir && t.1 {
+            // Directories have no content of their own, what they contain is compared by itself.
+            continue;
+        }
+
+        if from_is_dir {
+            // A file was replaced by a directory.
+            in_to_only.push(DeletedDiffResult {
+                path: path.clone(),
+                original_key: Some(t.0),
+                is_dir: false,
+            });
+            in_from_only.push(AddedDiffResult {
+                path: path.clone(),
+                new_key: from_map.as_ref().either(|_| None, |y| Some(y[path].0)),
+                is_dir: true,
+            });
+            continue;
+        }
+
         let f;
         match &from_map {
-            either::Left(fs_items) => {
-                if fs_items[path] {
-                    continue;
-                }
-
+            either::Left(_) => {
                 f = dir::hash_fs_item(
                     ds,
                     &from_path
@@ -152,7 +171,20 @@ pub fn compare<'a>(
             either::Right(db_items) => f = db_items[path].0,
         }
 
-        let t = to_map[path];
+        if t.1 {
+            // A directory was replaced by a file.
+            in_to_only.push(DeletedDiffResult {
+                path: path.clone(),
+                original_key: Some(t.0),
+                is_dir: true,
+            });
+            in_from_only.push(AddedDiffResult {
+                path: path.clone(),
+                new_key: Some(f),
+                is_dir: false,
+            });
+            continue;
+        }
 
         if f != t.0 {
             let dr = ModifiedDiffResult {
-- 
2.43.0


From 11ad6b521999d22194e3796a18f90dc9eaf00e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 15/36] fix: give correct line ranges in patches

The counts of a hunk did not match its lines, so patches could not be applied.
---
 src/diff.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 6a86411..c9f4b69 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -432,10 +432,7 @@ pub fn create_diff_patch_result(
 
                     hunks.push(patch::Hunk {
                         old_range: patch::Range { start: 0, count: 0 },
-                        new_range: patch::Range {
-                            start: 0,
-                            count: lines.len() as u64,
-                        },
+                        new_range: hunk_range(1, lines.len() as u64),
                         lines,
                     });
                 }
@@ -485,10 +482,7 @@ pub fn create_diff_patch_result(
 
                     hunks.push(patch::Hunk {
                         new_range: patch::Range { start: 0, count: 0 },
-                        old_range: patch::Range {
-                            start: 0,
-                            count: lines.len() as u64,
-                        },
+                        old_range: hunk_range(1, lines.len() as u64),
                         lines,
                     });
                 }
@@ -532,6 +526,15 @@ pub fn create_diff_patch_result(
     Ok(result)
 }
 
+/// Range of `count` lines of which the first has the (1 based) number `start`. By convention, an
+/// empty range gives the number of the line before it.
+fn hunk_range(start: u64, count: u64) -> patch::Range {
+    patch::Range {
+        start: if count == 0 { start - 1 } else { start },
+        count,
+    }
+}
+
 fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf) -> String {
     let lines = difference::Changeset::new(&before_str, &after_str, "\n");
 
@@ -608,17 +611,19 @@ fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf)
         assert!(!collected.is_empty());
 
         let (start_before, start_after, _) = collected.first().unwrap();
-        let (end_before, end_after, _) = collected.last().unwrap();
 
-        let before_range = patch::Range {
-            start: *start_before,
-            count: *end_before - *start_before,
-        };
+        let count_before = collected
+            .iter()
+            .filter(|x| !matches!(x.2, difference::Difference::Add(_)))
+            .count() as u64;
 
-        let after_range = patch::Range {
-            start: *start_after,
-            count: *end_after - *start_after,
-        };
+        let count_after = collected
+            .iter()
+            .filter(|x| !matches!(x.2, difference::Difference::Rem(_)))
+            .count() as u64;
+
+        let before_range = hunk_range(*start_before, count_before);
+        let after_range = hunk_range(*start_after, count_after);
 
         let mut lines = Vec::new();
 
-- 
2.43.0


From d08a792183f41d4b35bb2b04b5b37151fe98b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:15 +0000
Subject: [PATCH 16/36] fix: keep carriage returns in patches of added and
 deleted files

---
 src/diff.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index c9f4b69..591945f 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -426,7 +426,8 @@ pub fn create_diff_patch_result(
                 Ok(s) => {
                     let mut lines = Vec::new();
 
-                    for line in s.lines() {
+                    // Not lines(), that would drop carriage returns.
+                    for line in s.split_terminator('\n') {
                         lines.push(patch::Line::Add(line));
                     }
 
@@ -476,7 +477,8 @@ pub fn create_diff_patch_result(
                 Ok(s) => {
                     let mut lines = Vec::new();
 
-                    for line in s.lines() {
+                    // Not lines(), that would drop carriage returns.
+                    for line in s.split_terminator('\n') {
                         lines.push(patch::Line::Remove(line));
                     }
 
-- 
2.43.0


From 1f5b195cdf548c3cf9e9b9c89915d82d5af1a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 17/36] fix: refuse to make patches of modified binary files

As for added and deleted ones. They were converted lossily, so the patch
showed content that neither file has, or no change at all.
---
 src/diff.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 591945f..a4ed1d4 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -516,11 +516,10 @@ pub fn create_diff_patch_result(
         let mut after = Vec::new();
         file::read_data(ds, modified.new_key.into(), &mut after).unwrap();
 
-        let before_str = String::from_utf8_lossy(&before);
-        let after_str = String::from_utf8_lossy(&after);
+        let before_str = String::from_utf8(before).map_err(|_| DiffPatchError::Binary)?;
+        let after_str = String::from_utf8(after).map_err(|_| DiffPatchError::Binary)?;
 
-        let patch_str =
-            patch_from_file_string(before_str.to_string(), after_str.to_string(), modified.path);
+        let patch_str = patch_from_file_string(before_str, after_str, modified.path);
 
         result.push_str(&patch_str);
     }
-- 
2.43.0


From 0e40068648ecc3e563906d76a37cb8fe36503dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 18/36] fix: do not panic when decoding a commit object without
 keys

---
 src/commit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commit.rs b/src/commit.rs
index a7c50e8..1b0e9ab 100644
--- a/src/commit.rs
+++ b/src/commit.rs
@@ -89,6 +89,10 @@ impl TryInto<Commit> for Object {
 
         let mut owned_keys = self.keys().to_vec();
 
+        if owned_keys.is_empty() {
+            return Err(serde::de::Error::custom("commit object has no tree"));
+        }
+
         let tree = owned_keys.remove(0);
         let parents = owned_keys;
 
-- 
2.43.0


From f4e6bc8c43fd08300aeb22a8a0829f966b1928df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 19/36] fix: reject keys with trailing characters

Anything after a full key was ignored.
---
 src/keyish.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keyish.rs b/src/keyish.rs
index fbe8f95..99ac647 100644
--- a/src/keyish.rs
+++ b/src/keyish.rs
@@ -87,6 +87,12 @@ impl std::str::FromStr for Keyish {
             };
 
             if input.len() == max_len {
+                // There is exactly one way to write a full key. Anything else (extra characters, or
+                // leftover bits that are not zero) is not a key.
+                if !crate::base32::to_base32(input.as_slice()).eq_ignore_ascii_case(bytes) {
+                    return Err(KeyishParseError::Invalid(s.to_string()));
+                }
+
                 let mut v = input.into_vec();
                 v.insert(0_usize, 1_u8);
                 return Ok(Keyish::Key(s.to_string(), v));
-- 
2.43.0


From b04f05847eb0b7bd2d5e0b9008d2da10f2ef01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 20/36] fix: allow dangling links to be excluded

The filter panicked on them before looking at the exclude patterns.
---
 src/filter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index 01b3ca2..1b1b15a 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -16,11 +16,13 @@ pub fn make_filter_fn<T: AsRef<str>>(
     Box::new(move |direntry: &DirEntry| -> bool {
         let path = direntry.path();
 
-        let canon_path = std::fs::canonicalize(&path).unwrap();
-        let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
+        // A dangling link can't be resolved, but it may still be excluded below.
+        if let Ok(canon_path) = std::fs::canonicalize(&path) {
+            let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
 
-        if canon_path.starts_with(canon_db_path) {
-            return false;
+            if canon_path.starts_with(canon_db_path) {
+                return false;
+            }
         }
 
         let normalised_path = if path.starts_with("./") {
-- 
2.43.0


From 0440814f6f4d82d6c832b1b08970fc470c865e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 21/36] fix: do not use stale or foreign cache entries

Entries were found by inode, mtime in seconds and size, so edits within a second or that kept
the mtime went unnoticed, and entries made for another repository were used without the objects
being there.
---
 src/cache.rs | 42 ++++++++++++++++++++++++++++--------------
 src/dir.rs   | 32 ++++++++++++++++++++++----------
 2 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index bd9fb50..32c8354 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -7,11 +7,36 @@ use crate::{ds, key};
 
 #[derive(Copy, Clone, Debug)]
 pub struct CacheKey {
+    pub dev: u64,
     pub inode: u64,
-    pub mtime: i64,
+    pub mtime: (i64, i64),
+    pub ctime: (i64, i64),
     pub size: u64,
 }
 
+impl CacheKey {
+    fn to_bytes(self) -> Vec<u8> {
+        let mut data = Vec::with_capacity(8 * 7);
+        data.extend(self.dev.to_le_bytes().iter());
+        data.extend(self.inode.to_le_bytes().iter());
+        data.extend(self.mtime.0.to_le_bytes().iter());
+        data.extend(self.mtime.1.to_le_bytes().iter());
+        data.extend(self.ctime.0.to_le_bytes().iter());
+        data.extend(self.ctime.1.to_le_bytes().iter());
+        data.extend(self.size.to_le_bytes().iter());
+        data
+    }
+
+    /// A file which was changed just before it was read could be changed again without that being
+    /// visible in its timestamps, so these should not be cached.
+    pub fn is_settled(self, now: std::time::SystemTime) -> bool {
+        match now.duration_since(std::time::UNIX_EPOCH) {
+            Ok(now) => self.ctime.0.saturating_add(2) < now.as_secs() as i64,
+            Err(_) => false,
+        }
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum RawGetCacheError {
     #[error("data store error: {_0}")]
@@ -44,12 +69,7 @@ pub trait Cache: ds::Transactional {
     fn raw_put(&self, cachekey: &[u8], value: &[u8]) -> Result<(), RawPutCacheError>;
 
     fn get(&self, cachekey: CacheKey) -> Result<Option<key::Key>, GetCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
-        data.extend(cachekey.inode.to_le_bytes().iter());
-        data.extend(cachekey.mtime.to_le_bytes().iter());
-        data.extend(cachekey.size.to_le_bytes().iter());
-
-        let cache_result = self.raw_get(&data)?;
+        let cache_result = self.raw_get(&cachekey.to_bytes())?;
 
         match cache_result {
             Some(data) => {
@@ -61,13 +81,7 @@ pub trait Cache: ds::Transactional {
     }
 
     fn put(&self, cachekey: CacheKey, value: key::Key) -> Result<(), PutCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
-
-        data.extend(cachekey.inode.to_le_bytes().iter());
-        data.extend(cachekey.mtime.to_le_bytes().iter());
-        data.extend(cachekey.size.to_le_bytes().iter());
-
-        self.raw_put(&data, &value.as_db_key())?;
+        self.raw_put(&cachekey.to_bytes(), &value.as_db_key())?;
 
         Ok(())
     }
diff --git a/src/dir.rs b/src/dir.rs
index 0ad0668..04db1bb 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -151,6 +151,9 @@ pub enum HashFsItemError {
     #[error("cache error: {_0}")]
     CacheError(#[from] cache::GetCacheError),
 
+    #[error("error checking for object: {_0}")]
+    RawExistsError(#[from] ds::RawExistsError),
+
     #[error("error when encoding object: {_0}")]
     EncodeError(#[from] serde_cbor::error::Error),
 
@@ -168,17 +171,24 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
     if meta.is_file() {
         use std::os::unix::fs::MetadataExt;
 
+        let now = std::time::SystemTime::now();
+
         let f = std::fs::File::open(path)?;
 
         let ext_metadata = f.metadata()?;
         let cache_key = CacheKey {
-            mtime: ext_metadata.mtime(),
+            dev: ext_metadata.dev(),
             inode: ext_metadata.ino(),
+            mtime: (ext_metadata.mtime(), ext_metadata.mtime_nsec()),
+            ctime: (ext_metadata.ctime(), ext_metadata.ctime_nsec()),
             size: ext_metadata.size(),
         };
 
         if let Some(h) = cache.get(cache_key)? {
-            return Ok(h);
+            // The cache is shared between repositories, this one might not have the object yet.
+            if ds.raw_exists(&h.as_db_key())? {
+                return Ok(h);
+            }
         }
 
         let reader = std::io::BufReader::new(f);
@@ -196,14 +206,16 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let obj_hash = ds.put_obj(&object)?;
 
-        match cache.put(cache_key, obj_hash) {
-            Ok(()) => {}
-            Err(e) => log::warn!(
-                "Error {:?} putting cache entry {:?} as {}",
-                e,
-                cache_key,
-                &obj_hash
-            ),
+        if cache_key.is_settled(now) {
+            match cache.put(cache_key, obj_hash) {
+                Ok(()) => {}
+                Err(e) => log::warn!(
+                    "Error {:?} putting cache entry {:?} as {}",
+                    e,
+                    cache_key,
+                    &obj_hash
+                ),
+            }
         }
 
         return Ok(obj_hash);
-- 
2.43.0


From bbfdd00c5517cc7aef3a9f4a2dfbee2735c7caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 22/36] fix: do not take a failure to read a ref for a missing
 ref

---
 src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 803da12..195e50a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -600,7 +600,11 @@ fn status(state: &mut State, _args: StatusArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {
+        Ok(k) => Some(k),
+        Err(GetReflogError::NotFound) => None,
+        Err(other) => return Err(other.into()),
+    };
 
     match &ref_key {
         Some(k) => {
@@ -655,7 +659,11 @@ fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {
+        Ok(k) => Some(k),
+        Err(GetReflogError::NotFound) => None,
+        Err(other) => return Err(other.into()),
+    };
 
     let tree_key = ref_key.map(|key| commit::Commit::from_key(&ds_state.ds, key).tree());
 
-- 
2.43.0


From 8a387ab2bd391dcdb8292c70f30df5dafea8c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 23/36] fix: report when the end of a shown file cannot be
 written

---
 src/display.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/display.rs b/src/display.rs
index 5d51d0c..f760ab1 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -2,6 +2,7 @@ use colored::*;
 
 use crate::{commit, diff, file, key::Key, object, DataStore};
 use std::convert::TryInto;
+use std::io::Write;
 use thiserror::Error;
 
 #[derive(Debug, Error)]
@@ -63,7 +64,10 @@ pub fn display_obj(ds: &mut impl DataStore, key: Key, kind: Kind) -> Result<(),
 
     match obj.objtype() {
         ObjType::FileBlobTree | ObjType::FileBlob => {
-            file::read_data(ds, key, &mut std::io::stdout())?;
+            let mut stdout = std::io::stdout();
+            file::read_data(ds, key, &mut stdout)?;
+            // Otherwise a failure to write what is still buffered would go unnoticed.
+            stdout.flush().map_err(file::ReadDataError::from)?;
         }
         ObjType::FSItemFile => {
             assert!(obj.keys().len() == 1);
-- 
2.43.0


From 03822b5ba68fae5d744139243953e358859831e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 24/36] fix: do not pass over a repository that cannot be
 examined

---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 195e50a..677dc95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -442,8 +442,12 @@ fn find_db_folder(name: &Path) -> Result<Option<PathBuf>, anyhow::Error> {
 
         check.push(&name);
 
-        if check.exists() {
-            return Ok(Some(check));
+        match std::fs::metadata(&check) {
+            Ok(_) => return Ok(Some(check)),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+            Err(e) if e.kind() == std::io::ErrorKind::NotADirectory => {}
+            // There may well be a repository here, don't use another one further up instead.
+            Err(e) => return Err(e.into()),
         }
 
         d = match d.parent() {
-- 
2.43.0


From da05c6019d96517ff39c84e7d25a8564cc0af696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 25/36] fix: fail when a path cannot be resolved for excluding
 it

---
 src/filter.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index 1b1b15a..75b40e5 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -16,13 +16,17 @@ pub fn make_filter_fn<T: AsRef<str>>(
     Box::new(move |direntry: &DirEntry| -> bool {
         let path = direntry.path();
 
-        // A dangling link can't be resolved, but it may still be excluded below.
-        if let Ok(canon_path) = std::fs::canonicalize(&path) {
-            let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
+        match std::fs::canonicalize(&path) {
+            Ok(canon_path) => {
+                let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
 
-            if canon_path.starts_with(canon_db_path) {
-                return false;
+                if canon_path.starts_with(canon_db_path) {
+                    return false;
+                }
             }
+            // A dangling link can't be resolved, but it may still be excluded below.
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+            Err(e) => panic!("failed to resolve {}: {}", path.display(), e),
         }
 
         let normalised_path = if path.starts_with("./") {
-- 
2.43.0


From 8f70e74d428d9c579b46db59f8cc602cbd74e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 26/36] fix: keep excluded paths on checkout

Excluded files inside of a removed directory were removed with it, and excluded files that also
are in the tree were overwritten.
---
 src/dir.rs | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 04db1bb..dea32e4 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -312,6 +312,34 @@ pub enum CheckoutFsItemError {
     InvalidName(PathBuf),
 }
 
+/// Removes what is at `path`, except for what is excluded and the directories leading to that.
+/// Returns whether all of it was removed.
+fn remove_unless_excluded(
+    path: &Path,
+    filter: &dyn Fn(&DirEntry) -> bool,
+) -> Result<bool, std::io::Error> {
+    if !std::fs::symlink_metadata(path)?.is_dir() {
+        std::fs::remove_file(path)?;
+        return Ok(true);
+    }
+
+    let mut removed_all = true;
+
+    for item in std::fs::read_dir(path)? {
+        let item = item?;
+
+        if !filter(&item) || !remove_unless_excluded(&item.path(), filter)? {
+            removed_all = false;
+        }
+    }
+
+    if removed_all {
+        std::fs::remove_dir(path)?;
+    }
+
+    Ok(removed_all)
+}
+
 pub fn checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -327,6 +355,7 @@ pub fn checkout_fs_item<DS: DataStore>(
             let db_items: HashSet<PathBuf> = fsobj.children_names.iter().cloned().collect();
 
             let mut fs_items = HashSet::new();
+            let mut excluded: HashSet<PathBuf> = HashSet::new();
 
             if !path.exists() {
                 assert!(path.starts_with("/home/jess/src/snapcd/repo"));
@@ -338,6 +367,8 @@ pub fn checkout_fs_item<DS: DataStore>(
 
                 if filter(&ok_item) {
                     fs_items.insert(ok_item.file_name().into());
+                } else {
+                    excluded.insert(ok_item.file_name().into());
                 }
             }
 
@@ -345,16 +376,8 @@ pub fn checkout_fs_item<DS: DataStore>(
 
             for item in extra.iter() {
                 assert!(path.starts_with("/home/jess/src/snapcd/repo"));
-                let p = path.join(item);
-                let ft = std::fs::metadata(&p)?.file_type();
-
-                if ft.is_dir() {
-                    std::fs::remove_dir_all(p)?;
-                } else if ft.is_file() {
-                    std::fs::remove_file(p)?;
-                } else if ft.is_symlink() {
-                    return Err(CheckoutFsItemError::UnimplementedFileTypeFound);
-                }
+
+                remove_unless_excluded(&path.join(item), filter)?;
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
@@ -362,6 +385,10 @@ pub fn checkout_fs_item<DS: DataStore>(
                     return Err(CheckoutFsItemError::InvalidName(name.clone()));
                 }
 
+                if excluded.contains(name) {
+                    continue;
+                }
+
                 checkout_fs_item(ds, child, &path.join(&name), filter)?;
             }
         }
-- 
2.43.0


From 29587b372f35c66a70194b5782f30cf880187fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 27/36] fix: do not let .. in the database path lead checkout
 out of its directory

---
 src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 677dc95..09784b2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,7 +12,7 @@ use snapcd::{
 use colored::*;
 pub use thiserror::Error;
 
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use structopt::StructOpt;
 
 type CMDResult = Result<(), anyhow::Error>;
@@ -652,7 +652,15 @@ fn checkout(state: &mut State, _args: CheckoutArgs) -> CMDResult {
     let filter = filter::make_filter_fn(&state.common.exclude, ds_state.db_folder_path.clone());
 
     let tree_key = commit::Commit::from_key(&ds_state.ds, key).tree();
-    dir::checkout_fs_item(&ds_state.ds, tree_key, &ds_state.repo_path, &filter)?;
+
+    // Checkout is limited to one directory, `..` in the path must not lead out of it.
+    let repo_path = if ds_state.repo_path.components().any(|x| x == Component::ParentDir) {
+        std::fs::canonicalize(&ds_state.repo_path)?
+    } else {
+        ds_state.repo_path.clone()
+    };
+
+    dir::checkout_fs_item(&ds_state.ds, tree_key, &repo_path, &filter)?;
     Ok(())
 }
 
-- 
2.43.0


From 8d5718e7fdf90358e33ddf6694ff051ad10bd964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:47 +0000
Subject: [PATCH 28/36] fix: leave out excluded paths before resolving them

---
 src/filter.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index 75b40e5..bf249c7 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -16,6 +16,16 @@ pub fn make_filter_fn<T: AsRef<str>>(
     Box::new(move |direntry: &DirEntry| -> bool {
         let path = direntry.path();
 
+        let normalised_path = if path.starts_with("./") {
+            path.strip_prefix("./").unwrap()
+        } else {
+            &path
+        };
+
+        if excl_globset.is_match(normalised_path) {
+            return false;
+        }
+
         match std::fs::canonicalize(&path) {
             Ok(canon_path) => {
                 let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
@@ -24,17 +34,11 @@ pub fn make_filter_fn<T: AsRef<str>>(
                     return false;
                 }
             }
-            // A dangling link can't be resolved, but it may still be excluded below.
+            // A dangling link can't be resolved, reading it will fail.
             Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
             Err(e) => panic!("failed to resolve {}: {}", path.display(), e),
         }
 
-        let normalised_path = if path.starts_with("./") {
-            path.strip_prefix("./").unwrap()
-        } else {
-            &path
-        };
-
-        !excl_globset.is_match(normalised_path)
+        true
     })
 }
-- 
2.43.0


From 0305222f368eb67b57ed4b74653d5a1f12e4c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:29 +0000
Subject: [PATCH 29/36] fix: refuse objects that are no commits as refs and
 parents

---
 src/main.rs | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 09784b2..60faffe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,7 @@
 
 use snapcd::{
     cache::SqliteCache, commit, diff, dir, display, ds::sqlite::SqliteDS, ds::GetReflogError,
-    ds::Transactional, filter, key, DataStore, Keyish, Reflog,
+    ds::Transactional, filter, key, object::ObjType, DataStore, Keyish, Reflog,
 };
 
 use colored::*;
@@ -240,6 +240,23 @@ struct DatabaseNotFoundError;
 )]
 struct NoHeadError;
 
+#[derive(Debug, Error)]
+#[error("object {0} is not a {1}")]
+struct WrongTypeError(key::Key, &'static str);
+
+/// Refs and parents must name commits, nothing could be done with anything else.
+fn canonicalize_commit(
+    ds: &impl DataStore,
+    search: Keyish,
+) -> Result<key::TypedKey<commit::Commit>, anyhow::Error> {
+    let key = ds.canonicalize(search)?;
+
+    match ds.get_obj(key)?.objtype() {
+        ObjType::Commit => Ok(key.into()),
+        _ => Err(WrongTypeError(key, "commit").into()),
+    }
+}
+
 fn insert(state: &mut State, args: InsertArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
@@ -300,7 +317,7 @@ fn ref_log(state: &mut State, args: RefLogArgs) -> CMDResult {
 fn ref_update(state: &mut State, args: RefUpdateArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
-    let key = ds_state.ds.canonicalize(args.key)?;
+    let key = canonicalize_commit(&ds_state.ds, args.key)?;
 
     let refname = match args.refname {
         Some(s) => s,
@@ -308,7 +325,7 @@ fn ref_update(state: &mut State, args: RefUpdateArgs) -> CMDResult {
     };
 
     let log = Reflog {
-        key: key.into(),
+        key,
         refname,
         remote: None,
     };
@@ -383,21 +400,20 @@ fn debug_commit_tree(state: &mut State, args: CommitTreeArgs) -> CMDResult {
 
     let tree = ds_state.ds.canonicalize(args.tree)?;
 
+    match ds_state.ds.get_obj(tree)?.objtype() {
+        ObjType::FSItemDir | ObjType::FSItemFile => {}
+        _ => return Err(WrongTypeError(tree, "tree").into()),
+    }
+
     let mut parents = Vec::with_capacity(args.parents.len());
 
     for parent in args.parents {
-        let key = ds_state.ds.canonicalize(parent)?;
-        parents.push(key);
+        parents.push(canonicalize_commit(&ds_state.ds, parent)?);
     }
 
     let attrs = commit::CommitAttrs::default();
 
-    let commit = commit::commit_tree(
-        &mut ds_state.ds,
-        tree.into(),
-        parents.iter().map(|&x| x.into()).collect(),
-        attrs,
-    )?;
+    let commit = commit::commit_tree(&mut ds_state.ds, tree.into(), parents, attrs)?;
 
     println!("{}", commit);
 
@@ -419,10 +435,10 @@ fn debug_reflog_get(state: &mut State, args: ReflogGetArgs) -> CMDResult {
 fn debug_reflog_push(state: &mut State, args: ReflogPushArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
-    let key = ds_state.ds.canonicalize(args.key)?;
+    let key = canonicalize_commit(&ds_state.ds, args.key)?;
 
     let log = Reflog {
-        key: key.into(),
+        key,
         refname: args.refname,
         remote: args.remote,
     };
-- 
2.43.0


From 520233a5ed736157bd137c0f89278dffe746bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:08 +0000
Subject: [PATCH 30/36] fix: store the size of what was read, not of what the
 file had before

---
 src/dir.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index dea32e4..9fea612 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -10,6 +10,7 @@ use crate::{
 use std::collections::{HashMap, HashSet};
 use std::convert::TryInto;
 use std::fs::DirEntry;
+use std::io::Read;
 use std::path::{Component, Path, PathBuf};
 use thiserror::Error;
 
@@ -78,6 +79,27 @@ pub enum PutFsItemError {
     SerialisationError(#[from] serde_cbor::error::Error),
 }
 
+/// Counts what is read. The file may change at any moment, so the size in its metadata is not
+/// necessarily that of what is stored.
+struct CountingReader<R> {
+    inner: R,
+    count: u64,
+}
+
+impl<R> CountingReader<R> {
+    fn new(inner: R) -> Self {
+        Self { inner, count: 0 }
+    }
+}
+
+impl<R: Read> Read for CountingReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let n = self.inner.read(buf)?;
+        self.count += n as u64;
+        Ok(n)
+    }
+}
+
 pub fn put_fs_item<DS: DataStore>(
     ds: &mut DS,
     path: &Path,
@@ -118,15 +140,15 @@ pub fn put_fs_item<DS: DataStore>(
     if meta.is_file() {
         let f = std::fs::File::open(path)?;
 
-        let reader = std::io::BufReader::new(f);
+        let mut reader = CountingReader::new(std::io::BufReader::new(f));
 
-        let hash = file::put_data(ds, reader)?;
+        let hash = file::put_data(ds, &mut reader)?;
 
         let obj = FSItem {
             children: vec![hash.into()],
             children_names: vec![],
             itemtype: FSItemType::File,
-            size: meta.len(),
+            size: reader.count,
         };
 
         let object = obj.try_into()?;
@@ -191,15 +213,15 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
             }
         }
 
-        let reader = std::io::BufReader::new(f);
+        let mut reader = CountingReader::new(std::io::BufReader::new(f));
 
-        let hash = file::put_data(ds, reader)?;
+        let hash = file::put_data(ds, &mut reader)?;
 
         let obj = FSItem {
             children: vec![hash.into()],
             children_names: vec![],
             itemtype: FSItemType::File,
-            size: meta.len(),
+            size: reader.count,
         };
 
         let object = obj.try_into()?;
-- 
2.43.0


From b705bb4d1c7897f645bcfa7df10c3e5f6cd340f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:56 +0000
Subject: [PATCH 31/36] fix: do not read on after the end of a file

---
 src/file.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/file.rs b/src/file.rs
index 9bbe1f6..360592f 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -21,6 +21,8 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
 
     let mut hasher = gearhash::Hasher::new(&gearhash::DEFAULT_TABLE);
 
+    let mut at_end = false;
+
     loop {
         let m = {
             let hasher_match = hasher.next_match(&chunk_buffer, BLOB_ZERO_COUNT_BITMASK);
@@ -67,6 +69,10 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
             current_chunk.extend_from_slice(&chunk_buffer);
             chunk_buffer.clear();
 
+            if at_end {
+                break;
+            }
+
             // Always fill the whole buffer, so where chunks are cut does not depend on how many
             // bytes each read happens to return. (read_to_end retries interrupted reads.)
             let len = data
@@ -77,6 +83,10 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
             if len == 0 {
                 break;
             }
+
+            // What is added to a file after its end was seen is left out. Reading on would cut
+            // chunks at the old end.
+            at_end = (len as u64) < READ_BUFFER_SIZE;
         }
     }
 
-- 
2.43.0


From fb863bc423f93eeaf90485c3e4eb7dd003587355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:45 +0000
Subject: [PATCH 32/36] fix: init must not reset a head set at the same time by
 another process

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 60faffe..b612715 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -482,13 +482,18 @@ fn get_head_key(ds: &impl DataStore) -> Result<key::TypedKey<commit::Commit>, an
 
 fn init(state: &mut State, _args: InitArgs) -> CMDResult {
     std::fs::create_dir_all(&state.common.db_path)?;
-    let ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
+    let mut ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
+
+    // Running init again must not reset the head of an existing repository, also not if it is set
+    // by another process just now.
+    ds.begin_trans()?;
 
-    // Running init again must not reset the head of an existing repository.
     if ds.get_head()?.is_none() {
         ds.put_head("master")?;
     }
 
+    ds.commit()?;
+
     Ok(())
 }
 
-- 
2.43.0


From 4dadcfc4d9ddf31209701d8de0e046dd0b8ad764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:25 +0000
Subject: [PATCH 33/36] fix: checkout must not follow links in the working
 directory

---
 src/dir.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 9fea612..7d1a128 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -411,7 +411,20 @@ pub fn checkout_fs_item<DS: DataStore>(
                     continue;
                 }
 
-                checkout_fs_item(ds, child, &path.join(&name), filter)?;
+                let child_path = path.join(&name);
+
+                // A link may lead out of the directory, or to something else in it.
+                match std::fs::symlink_metadata(&child_path) {
+                    Ok(meta) if meta.file_type().is_symlink() => {
+                        assert!(path.starts_with("/home/jess/src/snapcd/repo"));
+                        std::fs::remove_file(&child_path)?;
+                    }
+                    Ok(_) => {}
+                    Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+                    Err(e) => return Err(e.into()),
+                }
+
+                checkout_fs_item(ds, child, &child_path, filter)?;
             }
         }
         FSItemType::File => {
-- 
2.43.0


From 7c006cc5387b4061245b7218cf3e7b82b71534a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:31 +0000
Subject: [PATCH 34/36] fix: checkout must not be led elsewhere by a link in
 the path of the repository

---
 src/main.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b612715..2eb9aa5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -674,9 +674,13 @@ fn checkout(state: &mut State, _args: CheckoutArgs) -> CMDResult {
 
     let tree_key = commit::Commit::from_key(&ds_state.ds, key).tree();
 
-    // Checkout is limited to one directory, `..` in the path must not lead out of it.
-    let repo_path = if ds_state.repo_path.components().any(|x| x == Component::ParentDir) {
-        std::fs::canonicalize(&ds_state.repo_path)?
+    // Checkout is limited to one directory, `..` and links in the path must not lead out of it.
+    let real_path = std::fs::canonicalize(&ds_state.repo_path)?;
+
+    let repo_path = if ds_state.repo_path.components().any(|x| x == Component::ParentDir)
+        || !real_path.starts_with("/home/jess/src/snapcd/repo")
+    {
+        real_path
     } else {
         ds_state.repo_path.clone()
     };
-- 
2.43.0


From 321debb54cda30bb5bd5eb12a22c61479ad1df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:52 +0000
Subject: [PATCH 35/36] fix: exit with a failure status when a command fails

Errors were printed, but the exit status was 0, so that scripts took a
failed commit or fetch for a successful one.
---
 src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 2eb9aa5..c6fe120 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -842,6 +842,10 @@ fn main() -> CMDResult {
 
         state.ds_state.as_mut().map(|x| x.ds.rollback());
         state.cache.rollback()?;
+
+        // Close the databases first, exiting runs no destructors.
+        drop(state);
+        std::process::exit(1);
     } else {
         if let Some(x) = state.ds_state.as_mut() {
             x.ds.commit()?;
-- 
2.43.0


From 687a298204d813bb0d467fb344a947c01d7f2053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:30 +0000
Subject: [PATCH 36/36] fix: checkout must replace hard links and special
 files, not write into them

---
 src/dir.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 7d1a128..93cd94e 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -368,6 +368,8 @@ pub fn checkout_fs_item<DS: DataStore>(
     path: &Path,
     filter: &dyn Fn(&DirEntry) -> bool,
 ) -> Result<(), CheckoutFsItemError> {
+    use std::os::unix::fs::MetadataExt;
+
     let obj = ds.get_obj(key.into())?;
 
     let fsobj: FSItem = obj.try_into()?;
@@ -413,13 +415,14 @@ pub fn checkout_fs_item<DS: DataStore>(
 
                 let child_path = path.join(&name);
 
-                // A link may lead out of the directory, or to something else in it.
+                // A link (also a hard one) may lead out of the directory, or to something else in it.
+                // Writing to a pipe or a device would not make it a file.
                 match std::fs::symlink_metadata(&child_path) {
-                    Ok(meta) if meta.file_type().is_symlink() => {
+                    Ok(meta) if meta.is_dir() || (meta.is_file() && meta.nlink() == 1) => {}
+                    Ok(_) => {
                         assert!(path.starts_with("/home/jess/src/snapcd/repo"));
                         std::fs::remove_file(&child_path)?;
                     }
-                    Ok(_) => {}
                     Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
                     Err(e) => return Err(e.into()),
                 }
-- 
2.43.0

