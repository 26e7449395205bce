From 23545b83fb2e6e44480354e3abbc48c414f094f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 01/15] fix: report the size of the whole file at every step of
 a visit

---
 src/file/reader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index f23f419..ae9f384 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -75,12 +75,12 @@ impl<'a> FileReader<'a> {
     pub fn from_block(data: &'a [u8]) -> Result<Self, FileReadFailed> {
         let inner = FlatUnixFs::try_from(data)?;
         let metadata = Metadata::from(&inner.data);
-        Self::from_parts(inner, 0, metadata)
+        Self::from_parts(inner, 0, metadata, None)
     }
 
     pub(crate) fn from_parsed(inner: FlatUnixFs<'a>) -> Result<Self, FileReadFailed> {
         let metadata = Metadata::from(&inner.data);
-        Self::from_parts(inner, 0, metadata)
+        Self::from_parts(inner, 0, metadata, None)
     }
 
     /// Called by Traversal to continue traversing a file tree traversal.
@@ -96,13 +96,17 @@ impl<'a> FileReader<'a> {
             return Err(FileError::NonRootDefinesMetadata(metadata).into());
         }
 
-        Self::from_parts(inner, offset, traversal.metadata)
+        // the total size of the file is only known by the root block
+        let file_size = Some(traversal.file_size);
+
+        Self::from_parts(inner, offset, traversal.metadata, file_size)
     }
 
     fn from_parts(
         inner: FlatUnixFs<'a>,
         offset: u64,
         metadata: Metadata,
+        file_size: Option<u64>,
     ) -> Result<Self, FileReadFailed> {
         let empty_or_no_content = inner
             .data
@@ -148,7 +152,7 @@ impl<'a> FileReader<'a> {
                 data,
                 blocksizes: inner.data.blocksizes,
                 metadata,
-                file_size: inner.data.filesize.unwrap(),
+                file_size: file_size.or(inner.data.filesize).unwrap(),
             })
         }
     }
-- 
2.43.0


From c0cc5242b745e0cf2285350f1e1401ec64e261f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 02/15] fix: accept single block files without a filesize

---
 src/file/reader.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index ae9f384..04440ee 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -134,13 +134,13 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
-            let end = if inner.links.is_empty() {
+            let (end, own_size) = if inner.links.is_empty() {
                 // can unwrap because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                Ending::Chunk(offset + filesize)
+                (Ending::Chunk(offset + filesize), filesize)
             } else {
                 match inner.data.filesize {
-                    Some(filesize) => Ending::TreeCoverage(offset + filesize),
+                    Some(filesize) => (Ending::TreeCoverage(offset + filesize), filesize),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
@@ -152,7 +152,7 @@ impl<'a> FileReader<'a> {
                 data,
                 blocksizes: inner.data.blocksizes,
                 metadata,
-                file_size: file_size.or(inner.data.filesize).unwrap(),
+                file_size: file_size.unwrap_or(own_size),
             })
         }
     }
-- 
2.43.0


From bbff3ed12717a37f11dac9f47e912c17f872435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 03/15] fix: reject files whose offsets would overflow

---
 src/file/reader.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 04440ee..848a614 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -134,13 +134,27 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
+            // sizes come from untrusted blocks, the file offsets must not overflow
+            let covers = |size: u64| {
+                offset
+                    .checked_add(size)
+                    .ok_or(FileError::TreeExpandsOnLinks)
+            };
+
+            inner
+                .data
+                .blocksizes
+                .iter()
+                .try_fold(offset, |end, size| end.checked_add(*size))
+                .ok_or(FileError::TreeExpandsOnLinks)?;
+
             let (end, own_size) = if inner.links.is_empty() {
                 // can unwrap because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                (Ending::Chunk(offset + filesize), filesize)
+                (Ending::Chunk(covers(filesize)?), filesize)
             } else {
                 match inner.data.filesize {
-                    Some(filesize) => (Ending::TreeCoverage(offset + filesize), filesize),
+                    Some(filesize) => (Ending::TreeCoverage(covers(filesize)?), filesize),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
-- 
2.43.0


From 90eb16d98b550d6243684a7e83d0de3dd63737fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 04/15] fix: do not slice past the end of a file block

---
 src/file/visit.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 4d96275..9c77951 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -255,25 +255,13 @@ fn target_slice<'a>(content: &'a [u8], block: &Range<u64>, target: &Range<u64>)
         // defaulting to empty slice is good, and similar to the "cat" HTTP API operation.
         &[][..]
     } else {
-        let start;
-        let end;
-
-        // FIXME: these must have bugs and must be possible to simplify
-        if target.start < block.start {
-            // we mostly need something before
-            start = 0;
-            end = (min(target.end, block.end) - block.start) as usize;
-        } else if target.end > block.end {
-            // we mostly need something after
-            start = (target.start - block.start) as usize;
-            end = (min(target.end, block.end) - block.start) as usize;
-        } else {
-            // inside
-            start = (target.start - block.start) as usize;
-            end = start + (target.end - target.start) as usize;
-        }
+        // the block might contain less than what was announced by the link to it
+        let len = content.len() as u64;
+
+        let start = min(target.start.saturating_sub(block.start), len);
+        let end = min(min(target.end, block.end) - block.start, len);
 
-        &content[start..end]
+        &content[start as usize..end as usize]
     }
 }
 
-- 
2.43.0


From 57e92e393e87b4a5809936a92b69f9c64a2f2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 05/15] fix: end the file visit when no links are left to visit

---
 src/file/visit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 9c77951..732e3eb 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -189,8 +189,14 @@ impl FileVisit {
                 // reverse to keep the next link we need to traverse as last, where pop() operates.
                 (&mut self.pending[before..]).reverse();
 
-                self.state = traversal;
-                Ok((&[][..], Some(self)))
+                if !self.pending.is_empty() {
+                    self.state = traversal;
+                    Ok((&[][..], Some(self)))
+                } else {
+                    // none of the links were in the target range
+                    *cache = Some(self.pending.into());
+                    Ok((&[][..], None))
+                }
             }
         }
     }
-- 
2.43.0


From eba8876f127077254c2a77992321eb9b6c21fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 06/15] fix: do not panic on multi-byte characters in shard
 entry names

---
 src/dir/sharded_lookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dir/sharded_lookup.rs b/src/dir/sharded_lookup.rs
index 57aceb1..75a3e16 100644
--- a/src/dir/sharded_lookup.rs
+++ b/src/dir/sharded_lookup.rs
@@ -169,7 +169,7 @@ impl<'needle> ShardedLookup<'needle> {
         for (i, link) in iter.enumerate() {
             let name = link.Name.as_deref().unwrap_or_default();
 
-            if name.len() > 2 && &name[2..] == needle {
+            if name.len() > 2 && name.get(2..) == Some(needle) {
                 if let Some(first) = found.take() {
                     return Err(MultipleMatchingLinks::from((first, (i, link))).into());
                 } else {
-- 
2.43.0


From a9bb428c95ae03758dee905af443d277712cc2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 07/15] fix: wrap blocks which end in empty data

---
 src/dagpb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dagpb.rs b/src/dagpb.rs
index 6d24139..4671ef0 100644
--- a/src/dagpb.rs
+++ b/src/dagpb.rs
@@ -50,7 +50,7 @@ fn subslice_to_range(full: &[u8], sub: &[u8]) -> Option<Range<usize>> {
         //
         // if there are two slices of a continuous chunk, [A|B] we need to make sure B will not be
         // calculated as subslice of A
-        .and_then(|start| if start >= max { None } else { Some(start) })
+        .and_then(|start| if start > max - amt { None } else { Some(start) })
         .map(|start| start..(start + amt))
 }
 
-- 
2.43.0


From 777c3bb4e32c2901c5aaa4aee845991e0c2b8b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 08/15] fix: report the identifier of the bucket following the
 root bucket

---
 src/walk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/walk.rs b/src/walk.rs
index a3daa93..3ec643c 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -466,6 +466,7 @@ impl InnerEntry {
         use InnerKind::*;
         match self.kind {
             BucketAtRoot => {
+                self.cid = cid;
                 assert_eq!(self.depth, depth, "{:?}", self.path);
             }
             RootBucket | Bucket | File(None, _) | Symlink => {
-- 
2.43.0


From 0898a873e790140f46fb216f136c9dca838e68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 09/15] fix: allow a bucket to follow an empty directory

---
 src/walk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index 3ec643c..e578c99 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -469,7 +469,7 @@ impl InnerEntry {
                 self.cid = cid;
                 assert_eq!(self.depth, depth, "{:?}", self.path);
             }
-            RootBucket | Bucket | File(None, _) | Symlink => {
+            RootBucket | Bucket | Directory | File(None, _) | Symlink => {
                 self.cid = cid;
                 self.kind = Bucket;
 
-- 
2.43.0


From d2b7bc6c5cdb707c95c7f44b3bc832d9b042a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 10/15] fix: return an error when a later block of a file
 cannot be parsed

---
 src/walk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index e578c99..93b3512 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -690,7 +690,8 @@ impl From<FileReadFailed> for Error {
         match e {
             File(e) => Error::File(e),
             UnexpectedType(ut) => Error::UnexpectedType(ut),
-            Read(_) => unreachable!("FileVisit does not parse any blocks"),
+            Read(Some(e)) => Error::DagPbParsingFailed(e),
+            Read(None) => Error::EmptyDagPbNode,
             InvalidCid(l) => Error::InvalidCid(l),
         }
     }
-- 
2.43.0


From d38c339f98968a8657d19bc30d7c24bb05e9ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 11/15] fix: return an error on link names which are not path
 segments

---
 src/walk.rs | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index 93b3512..abdc25b 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -33,19 +33,17 @@ fn convert_link(
     nested_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
-    let name = match link.Name {
-        Some(Cow::Borrowed(s)) if !s.is_empty() => s.to_owned(),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
-        Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
-    };
-    assert!(!name.contains('/'));
-    Ok((cid, name, nested_depth))
+    let name = link.Name.as_deref().unwrap_or_default();
+    if !is_path_segment(name) {
+        return Err(Error::InvalidLinkName(nth));
+    }
+    Ok((cid, name.to_owned(), nested_depth))
 }
 
 /// Converts a link of specifically a HAMTShard (and not a link of a Directory).
@@ -54,20 +52,25 @@ fn convert_sharded_link(
     sibling_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
-    let (depth, name) = match link.Name {
-        Some(Cow::Borrowed(s)) if s.len() > 2 => (nested_depth, s[2..].to_owned()),
-        Some(Cow::Borrowed(s)) if s.len() == 2 => (sibling_depth, String::from("")),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
-        Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
-    };
-    assert!(!name.contains('/'));
-    Ok((cid, name, depth))
+    let prefixed = link.Name.as_deref().unwrap_or_default();
+    if prefixed.len() == 2 {
+        return Ok((cid, String::from(""), sibling_depth));
+    }
+    match prefixed.get(2..) {
+        Some(name) if is_path_segment(name) => Ok((cid, name.to_owned(), nested_depth)),
+        _ => Err(Error::InvalidLinkName(nth)),
+    }
+}
+
+/// Names of the links need to be single path segments, in order to keep track of the path.
+fn is_path_segment(name: &str) -> bool {
+    !name.is_empty() && name != "." && !name.contains('/')
 }
 
 impl Walker {
@@ -657,6 +660,9 @@ pub enum Error {
     /// dag-pb link could not be converted to a Cid
     InvalidCid(InvalidCidInLink),
 
+    /// The name of the link at the given index in a directory cannot be used as a path segment.
+    InvalidLinkName(usize),
+
     /// A File has an invalid structure
     File(FileError),
 
@@ -720,6 +726,7 @@ impl fmt::Display for Error {
             UnixFsParsingFailed(e) => write!(fmt, "failed to parse the inner UnixFs: {}", e),
             EmptyDagPbNode => write!(fmt, "failed to parse the inner UnixFs: no data"),
             InvalidCid(e) => write!(fmt, "link contained an invalid Cid: {}", e),
+            InvalidLinkName(nth) => write!(fmt, "link #{} has an invalid name", nth),
             File(e) => write!(fmt, "invalid file: {}", e),
             UnsupportedDirectory(udp) => write!(fmt, "unsupported directory: {}", udp),
             UnsupportedHAMTShard(se) => write!(fmt, "unsupported hamtshard: {}", se),
-- 
2.43.0


From b1b625d0f9e2368744826f25cdda3088ef3960be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 12/15] fix: return an error when a bucket link leads to
 something else

---
 src/walk.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/walk.rs b/src/walk.rs
index abdc25b..5fa25ac 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -156,6 +156,15 @@ impl Walker {
         let flat = FlatUnixFs::try_from(bytes)?;
         let metadata = Metadata::from(&flat.data);
 
+        if current.is_some() && flat.data.Type != UnixFsType::HAMTShard {
+            // only the buckets of sharded directories are without a name
+            if let Some((_, name, _)) = next {
+                if name.is_empty() {
+                    return Err(Error::UnexpectedType(flat.data.Type.into()));
+                }
+            }
+        }
+
         match flat.data.Type {
             UnixFsType::Directory => {
                 let flat = crate::dir::check_directory_supported(flat)?;
-- 
2.43.0


From 89537be0d2feecb47cbe362540652c151d2f8bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 13/15] fix: allow setting metadata of the existing root entry

---
 src/dir/builder/buffered.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dir/builder/buffered.rs b/src/dir/builder/buffered.rs
index 4ef7f94..decb960 100644
--- a/src/dir/builder/buffered.rs
+++ b/src/dir/builder/buffered.rs
@@ -122,7 +122,10 @@ impl BufferingTreeBuilder {
             }
 
             // our first level can be full, depending on the options given
-            let full = depth == 0 && !self.opts.wrap_with_directory && !dir_builder.is_empty();
+            let full = depth == 0
+                && !self.opts.wrap_with_directory
+                && !dir_builder.is_empty()
+                && !dir_builder.nodes.contains_key(next);
 
             if last {
                 let mut next_id = Some(*counter);
-- 
2.43.0


From 9bd21205ba76aa1100f4064f8ff4b7ac07afe50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 14/15] fix: end the iteration after a directory which cannot
 be rendered

---
 src/dir/builder/iter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index ee18b25..1e52d1f 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -235,7 +235,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the ancestors cannot be rendered without this directory
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
@@ -282,7 +286,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the ancestors cannot be rendered without this directory
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
-- 
2.43.0


From 3f5522edc124626591efe7f4321974c0f5e6b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 15/15] fix: include the metadata set for a directory in its
 block

---
 src/dir/builder/dir_builder.rs |  2 +-
 src/dir/builder/iter.rs        | 22 +++++++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/dir/builder/dir_builder.rs b/src/dir/builder/dir_builder.rs
index 406b74e..12b7910 100644
--- a/src/dir/builder/dir_builder.rs
+++ b/src/dir/builder/dir_builder.rs
@@ -12,7 +12,7 @@ pub(super) struct DirBuilder {
     /// Immediate files, symlinks or directories in this directory
     pub nodes: BTreeMap<String, Entry>,
     /// Metadata for this directory
-    metadata: Metadata,
+    pub metadata: Metadata,
     /// Id of the parent; None for the root node
     pub parent_id: Option<u64>,
     /// Internal id, used for propagating Cids back from children during post order visit.
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index 1e52d1f..fbdd082 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -1,4 +1,5 @@
 use crate::pb::DAG_PB;
+use crate::Metadata;
 
 use super::{
     CustomFlatUnixFs, DirBuilder, Entry, Leaf, NamedLeaf, TreeConstructionFailed, TreeOptions,
@@ -58,9 +59,11 @@ enum Visited {
         /// Leaves will be stored directly in this field when there are no DirBuilder descendants,
         /// in the `PostOrderIterator::persisted_cids` otherwise.
         leaves: LeafStorage,
+        metadata: Metadata,
     },
     PostRoot {
         leaves: LeafStorage,
+        metadata: Metadata,
     },
 }
 
@@ -82,10 +85,11 @@ impl PostOrderIterator {
 
     fn render_directory(
         links: &[Option<NamedLeaf>],
+        metadata: &Metadata,
         buffer: &mut Vec<u8>,
         block_size_limit: &Option<u64>,
     ) -> Result<Leaf, TreeConstructionFailed> {
-        use crate::pb::{UnixFs, UnixFsType};
+        use crate::pb::{unixfs::UnixTime, UnixFs, UnixFsType};
         use quick_protobuf::{BytesWriter, MessageWrite, Writer};
 
         // FIXME: ideas on how to turn this into a HAMT sharding on some heuristic. we probably
@@ -106,6 +110,11 @@ impl PostOrderIterator {
             links,
             data: UnixFs {
                 Type: UnixFsType::Directory,
+                mode: metadata.mode(),
+                mtime: metadata.mtime().map(|(seconds, nanos)| UnixTime {
+                    Seconds: seconds,
+                    FractionalNanoseconds: if nanos == 0 { None } else { Some(nanos) },
+                }),
                 ..Default::default()
             },
         };
@@ -188,7 +197,9 @@ impl PostOrderIterator {
                         leaves.into()
                     };
 
-                    self.pending.push(Visited::PostRoot { leaves });
+                    let metadata = node.metadata;
+
+                    self.pending.push(Visited::PostRoot { leaves, metadata });
                     self.pending.append(children);
                 }
                 Visited::Descent {
@@ -201,6 +212,7 @@ impl PostOrderIterator {
                     let leaves = partition_children_leaves(depth, node.nodes.into_iter(), children);
                     let any_children = !children.is_empty();
                     let parent_id = node.parent_id.expect("only roots parent_id is None");
+                    let metadata = node.metadata;
 
                     let leaves = if any_children {
                         self.persisted_cids.insert(node.id, leaves);
@@ -215,6 +227,7 @@ impl PostOrderIterator {
                         depth,
                         leaves,
                         index,
+                        metadata,
                     });
 
                     self.pending.append(children);
@@ -224,6 +237,7 @@ impl PostOrderIterator {
                     name,
                     leaves,
                     index,
+                    metadata,
                     ..
                 } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
@@ -231,6 +245,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
@@ -271,7 +286,7 @@ impl PostOrderIterator {
                         block: &self.block_buffer,
                     }));
                 }
-                Visited::PostRoot { leaves } => {
+                Visited::PostRoot { leaves, metadata } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
 
                     if !self.opts.wrap_with_directory {
@@ -282,6 +297,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
-- 
2.43.0

