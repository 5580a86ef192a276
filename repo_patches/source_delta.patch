From 6c4e70c0b961cb4f2318b4c9b641c7ec3f6090df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 01/28] fix: File::seek_to ignored read errors and iterated
 past the end of the file

Errors from the block iterator were dropped, so that after a failed
device read the file was left at the wrong block. Seeking far past the
end took time proportional to the position.
---
 src/file.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index c9e6b7c..d930016 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -207,16 +207,25 @@ impl File {
     /// Seeking past the end of the file is allowed.
     pub fn seek_to(&mut self, position: u64) -> Result<(), Ext4Error> {
         // Reset iteration.
-        self.file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
-        self.block_index = None;
+        let mut file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
 
         // Advance the block iterator by the number of whole blocks in
-        // `position`.
-        let num_blocks = position / self.fs.0.superblock.block_size.to_nz_u64();
-        for _ in 0..num_blocks {
-            self.file_blocks.next();
+        // `position`. Nothing can be read from past the end of the file,
+        // so there's no need to advance the iterator in that case.
+        if position < self.inode.metadata.size_in_bytes {
+            let num_blocks =
+                position / self.fs.0.superblock.block_size.to_nz_u64();
+            for _ in 0..num_blocks {
+                match file_blocks.next() {
+                    Some(block_index) => block_index?,
+                    None => break,
+                };
+            }
         }
 
+        // Only modify `self` once all fallible operations are done.
+        self.file_blocks = file_blocks;
+        self.block_index = None;
         self.position = position;
 
         Ok(())
-- 
2.43.0


From 8e30737c460205836dabf9677c2929163b437b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 02/28] fix: File::read_bytes panicked when called again after
 a failed read

The block iterator yields nothing after an error, which the next read
took for impossible. Start over with a new iterator instead, so that a
file stays usable once the device works again. Also return an error
rather than panicking if the file has fewer blocks than its size says.
---
 src/file.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index d930016..045093a 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,7 @@
 
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::Ext4Error;
+use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::Inode;
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
@@ -26,6 +26,10 @@ pub struct File {
     inode: Inode,
     file_blocks: FileBlocks,
 
+    /// Set if `file_blocks` can no longer be used because it returned
+    /// an error.
+    file_blocks_stale: bool,
+
     /// Current byte offset within the file.
     position: u64,
 
@@ -63,6 +67,7 @@ impl File {
             fs: fs.clone(),
             position: 0,
             file_blocks: FileBlocks::new(fs.clone(), &inode)?,
+            file_blocks_stale: false,
             inode,
             block_index: None,
         })
@@ -122,14 +127,31 @@ impl File {
 
         let block_size = self.fs.0.superblock.block_size;
 
+        // If an earlier read failed to get a block, start over.
+        if self.file_blocks_stale {
+            self.seek_to(self.position)?;
+        }
+
         // Get the block to read from.
         let block_index = if let Some(block_index) = self.block_index {
             block_index
         } else {
-            // OK to unwrap: already checked that the position is not at
-            // the end of the file, so there must be at least one more
-            // block to read.
-            let block_index = self.file_blocks.next().unwrap()?;
+            let block_index = match self.file_blocks.next() {
+                Some(Ok(block_index)) => block_index,
+                Some(Err(err)) => {
+                    // The iterator cannot be used after an error. Mark
+                    // it as stale, so that another attempt to read
+                    // starts over with a new iterator.
+                    self.file_blocks_stale = true;
+                    return Err(err);
+                }
+                None => {
+                    // The position is not at the end of the file, but
+                    // the file has no more blocks.
+                    self.file_blocks_stale = true;
+                    return Err(CorruptKind::TooManyBlocksInFile.into());
+                }
+            };
 
             self.block_index = Some(block_index);
 
@@ -225,6 +247,7 @@ impl File {
 
         // Only modify `self` once all fallible operations are done.
         self.file_blocks = file_blocks;
+        self.file_blocks_stale = false;
         self.block_index = None;
         self.position = position;
 
-- 
2.43.0


From 159c2ba3da3d0d3699db7e7b7a6b4e5b236145b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 03/28] fix: files with a hole in place of an indirect block
 could not be read

A zero pointer to an indirect, double-indirect or triple-indirect block
means that everything below it is a hole.
---
 src/iters/file_blocks/block_map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iters/file_blocks/block_map.rs b/src/iters/file_blocks/block_map.rs
index c9a316b..cdb39cb 100644
--- a/src/iters/file_blocks/block_map.rs
+++ b/src/iters/file_blocks/block_map.rs
@@ -191,7 +191,12 @@ struct IndirectBlockIter {
 impl IndirectBlockIter {
     fn new(fs: Ext4, block_index: u32) -> Result<Self, Ext4Error> {
         let mut block = vec![0u8; fs.0.superblock.block_size.to_usize()];
-        fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+
+        // A zero block index indicates that everything the indirect
+        // block would map is a hole.
+        if block_index != 0 {
+            fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        }
 
         Ok(Self {
             block,
-- 
2.43.0


From 60c846162235c36527fd0c113891283613059a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 04/28] fix: unwritten extents were read as if they contained
 data

Preallocated blocks hold whatever was in them before, and the file's
content there is zeros. The stored length of such an extent is 32768
more than its real length, so everything after it was wrong too.
---
 src/iters/extents.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 4236c8a..570d9ea 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -19,6 +19,9 @@ use alloc::vec::Vec;
 /// entry).
 const ENTRY_SIZE_IN_BYTES: usize = 12;
 
+/// Maximum length in blocks of an initialized extent.
+const MAX_INITIALIZED_EXTENT_LEN: u16 = 32768;
+
 /// Header at the start of a node in an extent tree.
 ///
 /// An extent tree is made up of nodes. Each node may be internal or
@@ -210,6 +213,15 @@ impl Extents {
         if item.depth == 0 {
             let ee_block = read_u32le(entry, 0);
             let ee_len = read_u16le(entry, 4);
+
+            // If the length is greater than 32768, the extent is
+            // unwritten: blocks are allocated but the data in them is
+            // not valid. Reading from it produces zeros, the same as a
+            // hole, so skip the extent.
+            if ee_len > MAX_INITIALIZED_EXTENT_LEN {
+                return Ok(None);
+            }
+
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
 
-- 
2.43.0


From 59e7f0e3919e5ce5537eaeb95ff5fc338ca2730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 05/28] fix: a loop in an extent tree was followed forever

Each node's depth has to be one less than that of its parent.
---
 src/iters/extents.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 570d9ea..caf0099 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -234,6 +234,8 @@ impl Extents {
                 num_blocks: ee_len,
             }));
         } else {
+            let child_depth = item.depth.checked_sub(1);
+
             let ei_leaf_lo = read_u32le(entry, 4);
             let ei_leaf_hi = read_u16le(entry, 8);
             let child_block = u64_from_hilo(u32::from(ei_leaf_hi), ei_leaf_lo);
@@ -246,6 +248,12 @@ impl Extents {
             let child_header =
                 NodeHeader::from_bytes(&child_header, self.inode)?;
 
+            // The depth must decrease by one at each level, otherwise
+            // the tree could contain a loop.
+            if Some(child_header.depth) != child_depth {
+                return Err(CorruptKind::ExtentDepth(self.inode).into());
+            }
+
             // The checksum is written in the four bytes directly after
             // the node.
             let checksum_offset = child_header.checksum_offset();
-- 
2.43.0


From f6cca27eb8ef785b73ac2e042b5cef986ec07095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 06/28] fix: resolving a path with more than 1000 components
 panicked

A path of up to 4096 bytes can have over 2000 components, and symlinks
add more.
---
 src/resolve.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 4ae6d68..85cc736 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -70,10 +70,12 @@ pub(crate) fn resolve_path(
     // enforce a path length limit, but during path resolution the
     // length can grow quite a bit due to symlinks.
     const MAX_PATH_LEN: usize = 4096;
-    // Maximum number of iterations. This limit should never be reached
-    // in practice, this is just to guard against unknown bugs that
+    // Maximum number of iterations. Each iteration either consumes at
+    // least one byte of the path, or resolves a symlink, after which
+    // the path is again at most `MAX_PATH_LEN` bytes long. So this limit
+    // cannot be reached, this is just to guard against unknown bugs that
     // could cause an infinite loop.
-    const MAX_ITERATIONS: usize = 1000;
+    const MAX_ITERATIONS: usize = (MAX_SYMLINKS + 1) * (MAX_PATH_LEN + 1);
 
     if !path.is_absolute() {
         return Err(Ext4Error::NotAbsolute);
-- 
2.43.0


From 157f183d896af0af8b6ab43c4c7bd3f1329d15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 07/28] fix: panic on an htree block with an invalid number of
 entries

The number was used to slice the block before it had been validated.
---
 src/dir_block.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index b7138ee..081d8fd 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -69,6 +69,7 @@ impl DirBlock<'_> {
             self.calc_leaf_checksum(block)
         } else {
             self.calc_internal_checksum(block, block_type)
+                .ok_or(CorruptKind::DirBlockChecksum(self.dir_inode))?
         };
 
         if actual_checksum.finalize() == expected_checksum {
@@ -101,11 +102,14 @@ impl DirBlock<'_> {
     }
 
     /// Calculate the checksum of a non-leaf block.
+    ///
+    /// Returns `None` if the number of entries in the block is larger
+    /// than what the block can hold.
     fn calc_internal_checksum(
         &self,
         block: &[u8],
         block_type: DirBlockType,
-    ) -> Checksum {
+    ) -> Option<Checksum> {
         let tail_entry_size = 8;
 
         // OK to unwrap: minimum block size is 1024.
@@ -131,11 +135,11 @@ impl DirBlock<'_> {
             .unwrap();
 
         let mut checksum = self.checksum_base.clone();
-        checksum.update(&block[..num_bytes]);
+        checksum.update(block.get(..num_bytes)?);
         checksum.update_u32_le(read_u32le(block, tail_entry_offset));
         checksum.update_u32_le(0);
 
-        checksum
+        Some(checksum)
     }
 
     fn get_block_type(&self, block: &[u8]) -> DirBlockType {
-- 
2.43.0


From 9d6e7a534c5361d84392bf7c6fe898cd1963eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 08/28] fix: block sizes above 64KiB were accepted

ext4 does not allow them. The block cache is sized by the block size, so
that a corrupt superblock could make loading allocate gigabytes.
---
 src/superblock.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/superblock.rs b/src/superblock.rs
index da99256..1ae22ae 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -17,6 +17,9 @@ use crate::util::{read_u16le, read_u32le, u64_from_hilo};
 use crate::{Label, Uuid};
 use core::num::NonZero;
 
+/// Maximum block size allowed in an ext4 filesystem.
+const MAX_BLOCK_SIZE: u32 = 65536;
+
 /// Information about the filesystem.
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub(crate) struct Superblock {
@@ -78,6 +81,7 @@ impl Superblock {
         let blocks_count = u64_from_hilo(s_blocks_count_hi, s_blocks_count_lo);
 
         let block_size = BlockSize::from_superblock_value(s_log_block_size)
+            .filter(|block_size| block_size.to_u32() <= MAX_BLOCK_SIZE)
             .ok_or(CorruptKind::InvalidBlockSize)?;
 
         if s_magic != 0xef53 {
-- 
2.43.0


From e67cd7af781fba2cf64668f2e7747b7f1dac9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 09/28] fix: panic if the block group descriptors of a 64-bit
 filesystem are too small

The high half of the inode table's block number was read past the end of
the descriptor.
---
 src/error.rs      |  9 +++++++++
 src/superblock.rs | 15 +++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index b5efa63..2a67a52 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -218,6 +218,12 @@ pub(crate) enum CorruptKind {
         u32,
     ),
 
+    /// The size of block group descriptors is too small.
+    BlockGroupDescriptorSize(
+        /// Descriptor size in bytes.
+        u16,
+    ),
+
     /// Invalid block group descriptor.
     BlockGroupDescriptor(
         /// Block group number.
@@ -403,6 +409,9 @@ impl Display for CorruptKind {
             Self::FirstDataBlock(block) => {
                 write!(f, "invalid first data block: {block}")
             }
+            Self::BlockGroupDescriptorSize(size) => {
+                write!(f, "block group descriptor size is too small: {size}")
+            }
             Self::BlockGroupDescriptor(block_group_num) => {
                 write!(f, "block group descriptor {block_group_num} is invalid")
             }
diff --git a/src/superblock.rs b/src/superblock.rs
index 1ae22ae..dc41ff0 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -20,6 +20,10 @@ use core::num::NonZero;
 /// Maximum block size allowed in an ext4 filesystem.
 const MAX_BLOCK_SIZE: u32 = 65536;
 
+/// Minimum size in bytes of a block group descriptor if the 64-bit
+/// feature is enabled.
+const MIN_DESCRIPTOR_SIZE_64BIT: u16 = 64;
+
 /// Information about the filesystem.
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub(crate) struct Superblock {
@@ -122,6 +126,17 @@ impl Superblock {
                 32
             };
 
+        // With the 64-bit feature, block group descriptors have
+        // additional fields that must be present.
+        if incompatible_features.contains(IncompatibleFeatures::IS_64BIT)
+            && block_group_descriptor_size < MIN_DESCRIPTOR_SIZE_64BIT
+        {
+            return Err(CorruptKind::BlockGroupDescriptorSize(
+                block_group_descriptor_size,
+            )
+            .into());
+        }
+
         // Inodes are not allowed to exceed the block size.
         if s_inode_size > block_size {
             return Err(CorruptKind::InodeSize.into());
-- 
2.43.0


From fbc4e36da4ba834ff33b7eafd166df41d8be7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 10/28] fix: loading allocated memory for as many block groups
 as the superblock claims

A corrupt superblock can claim 2^32 of them, which aborted the process.
---
 src/block_group.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index 47be0a7..90153a8 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -12,7 +12,7 @@ use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::features::{IncompatibleFeatures, ReadOnlyCompatibleFeatures};
 use crate::superblock::Superblock;
-use crate::util::{read_u16le, read_u32le, u64_from_hilo, usize_from_u32};
+use crate::util::{read_u16le, read_u32le, u64_from_hilo};
 use alloc::vec;
 use alloc::vec::Vec;
 
@@ -130,8 +130,10 @@ impl BlockGroupDescriptor {
         sb: &Superblock,
         reader: &mut dyn Ext4Read,
     ) -> Result<Vec<Self>, Ext4Error> {
-        let mut block_group_descriptors =
-            Vec::with_capacity(usize_from_u32(sb.num_block_groups));
+        // The number of block groups is not known to be correct, so don't
+        // allocate memory based on it; reading the descriptors will
+        // return an error if there are fewer.
+        let mut block_group_descriptors = Vec::new();
 
         for bgd_index in 0..sb.num_block_groups {
             let bgd = Self::read(sb, reader, bgd_index)?;
-- 
2.43.0


From 5a99b7371230f3aff722c33fd1766dcfb465905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 11/28] fix: reading a file with a size too large for memory
 aborted the process

The size comes from the inode, which may be corrupt, and sparse files can
be larger than memory. Return FileTooLarge in that case.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f8aceb..6b7bbd7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -373,7 +373,12 @@ impl Ext4 {
         // Get the file size and initialize the output vector.
         let file_size_in_bytes = usize::try_from(inode.metadata.size_in_bytes)
             .map_err(|_| Ext4Error::FileTooLarge)?;
-        let mut dst = vec![0; file_size_in_bytes];
+        // The file size is not known to be correct, so don't assume that
+        // there is enough memory for it.
+        let mut dst = Vec::new();
+        dst.try_reserve_exact(file_size_in_bytes)
+            .map_err(|_| Ext4Error::FileTooLarge)?;
+        dst.resize(file_size_in_bytes, 0);
 
         // Use `File` to read the data in chunks.
         let mut file = File::open_inode(self, inode.clone())?;
-- 
2.43.0


From 9d8ab1497f2401fa565cbb888ed11e8d59a5e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 12/28] fix: journal revocations did not apply to earlier
 transactions

A block that was metadata, was freed, and is now file data was still
replaced by its old content from an earlier transaction of the journal.
---
 src/journal/block_map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 95ca2a3..fc32bde 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -81,7 +81,8 @@ struct BlockMapLoader<'a> {
     /// Revoked blocks in the current transaction. When a commit block
     /// is reached, any keys in `uncommitted_block_map` that are in this
     /// revoked list will be deleted instead of committing them to
-    /// `block_map`.
+    /// `block_map`. They are also deleted from `block_map`, so that the
+    /// blocks are not replaced by data from an earlier transaction.
     revoked_blocks: Vec<FsBlockIndex>,
 
     /// Iterator over blocks in the journal inode. At construction, the
@@ -230,11 +231,13 @@ impl<'a> BlockMapLoader<'a> {
     fn process_commit_block(&mut self) -> Result<(), Ext4Error> {
         validate_commit_block_checksum(self.superblock, &self.block)?;
 
-        // Remove any revoked blocks from uncommitted blocks.
+        // Remove any revoked blocks from uncommitted blocks, and from
+        // the blocks of earlier transactions.
         for block_index in &self.revoked_blocks {
             // Don't check the `remove` return value, as a revoked block
             // wasn't necessarily reused later in the transaction.
             self.uncommitted_block_map.remove(block_index);
+            self.block_map.remove(block_index);
         }
         self.revoked_blocks.clear();
 
-- 
2.43.0


From f16c0a6c62962af9f7a5e17db8fb30aed7e6e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 13/28] fix: transactions past the end of the circular journal
 were not applied

The log continues at the journal's first block when it reaches the last
one. Everything committed after that point was ignored.
---
 src/journal/block_map.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index fc32bde..7b77865 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -25,7 +25,7 @@ use crate::util::usize_from_u32;
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
-use core::iter::Skip;
+use core::iter::{Chain, Skip, Take};
 
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
@@ -86,8 +86,10 @@ struct BlockMapLoader<'a> {
     revoked_blocks: Vec<FsBlockIndex>,
 
     /// Iterator over blocks in the journal inode. At construction, the
-    /// iterator is advanced to the journal start block.
-    journal_block_iter: Skip<FileBlocks>,
+    /// iterator is advanced to the journal start block. After the last
+    /// block of the journal it continues with the first block after the
+    /// journal superblock, and ends when all blocks have been visited.
+    journal_block_iter: Chain<Skip<FileBlocks>, Take<Skip<FileBlocks>>>,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -120,12 +122,20 @@ impl<'a> BlockMapLoader<'a> {
         superblock: &'a JournalSuperblock,
         journal_inode: &Inode,
     ) -> Result<Self, Ext4Error> {
-        // Get an iterator over the journal's block indices.
-        let journal_block_iter = FileBlocks::new(fs.clone(), journal_inode)?;
+        let start_block = usize_from_u32(superblock.start_block);
 
-        // Skip forward to the start block.
-        let journal_block_iter =
-            journal_block_iter.skip(usize_from_u32(superblock.start_block));
+        // Get an iterator over the journal's block indices, skipping
+        // forward to the start block.
+        let until_end =
+            FileBlocks::new(fs.clone(), journal_inode)?.skip(start_block);
+
+        // The journal is circular. Get an iterator over the blocks
+        // between the journal superblock and the start block.
+        let until_start = FileBlocks::new(fs.clone(), journal_inode)?
+            .skip(1)
+            .take(start_block.saturating_sub(1));
+
+        let journal_block_iter = until_end.chain(until_start);
 
         Ok(Self {
             fs,
-- 
2.43.0


From 35228ff3e9cc0f0c609254824868be74da99e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 14/28] fix: journal transactions were ignored after the
 sequence number wraps

It is a 32-bit counter that continues with zero.
---
 src/error.rs             | 6 ------
 src/journal/block_map.rs | 6 ++----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 2a67a52..87ec8c2 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -269,9 +269,6 @@ pub(crate) enum CorruptKind {
     /// Journal revocation block has an invalid table size.
     JournalRevocationBlockInvalidTableSize(usize),
 
-    /// Journal sequence number overflowed.
-    JournalSequenceOverflow,
-
     /// Journal has a truncated descriptor block. Either it is missing a
     /// tag with the `LAST_TAG` flag set, or the final tag does have
     /// that flag set but there are not enough bytes to read the full
@@ -457,9 +454,6 @@ impl Display for CorruptKind {
                     "journal revocation block table size is invalid: {size}"
                 )
             }
-            Self::JournalSequenceOverflow => {
-                write!(f, "journal sequence number overflowed")
-            }
             Self::JournalDescriptorBlockTruncated => {
                 write!(f, "journal descriptor block is truncated")
             }
diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 7b77865..eecd211 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -255,10 +255,8 @@ impl<'a> BlockMapLoader<'a> {
         self.block_map.extend(self.uncommitted_block_map.iter());
         self.uncommitted_block_map.clear();
 
-        self.sequence = self
-            .sequence
-            .checked_add(1)
-            .ok_or(CorruptKind::JournalSequenceOverflow)?;
+        // The sequence number wraps.
+        self.sequence = self.sequence.wrapping_add(1);
 
         Ok(())
     }
-- 
2.43.0


From 9daf2310a66be31daf39eaf0ed5b5dd261f80f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 15/28] fix: an empty journal was read starting from its
 superblock

The log has no start block when it is empty. If the sequence number in
the superblock's own header happened to match, the filesystem could not
be loaded.
---
 src/journal/block_map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index eecd211..266c41a 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -37,6 +37,11 @@ pub(super) fn load_block_map(
     superblock: &JournalSuperblock,
     journal_inode: &Inode,
 ) -> Result<BlockMap, Ext4Error> {
+    // A start block of zero indicates that the journal is empty.
+    if superblock.start_block == 0 {
+        return Ok(BlockMap::new());
+    }
+
     let mut loader = BlockMapLoader::new(fs, superblock, journal_inode)?;
 
     while let Some(block_index) = loader.journal_block_iter.next() {
-- 
2.43.0


From f821482e895b352bf821db7d1c3377dfb754f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 16/28] fix: names were not found if a directory block was
 split within a hash collision

When all of the entries that should go in the second half of a split
directory block have the same hash as the last entry in the first half,
the low bit of the hash in the index is set, and lookups must continue
from the first block to the second one.
---
 src/dir_htree.rs | 172 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 111 insertions(+), 61 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 8b1457c..9da837f 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -18,8 +18,10 @@ use crate::iters::extents::Extents;
 use crate::iters::file_blocks::FileBlocks;
 use crate::path::PathBuf;
 use crate::util::{read_u16le, read_u32le, usize_from_u32};
+use alloc::collections::BTreeSet;
 use alloc::rc::Rc;
 use alloc::vec;
+use alloc::vec::Vec;
 
 type DirHash = u32;
 
@@ -152,12 +154,9 @@ impl<'a> InternalNode<'a> {
         self.entries.len() / Self::ENTRY_SIZE
     }
 
-    /// Perform a binary search to find the child block index for the
-    /// `lookup_hash`.
-    fn lookup_block_by_hash(
-        &self,
-        lookup_hash: DirHash,
-    ) -> Option<FileBlockIndex> {
+    /// Perform a binary search to find the index of the last entry whose
+    /// hash is not greater than `lookup_hash`.
+    fn lookup_index_by_hash(&self, lookup_hash: DirHash) -> Option<usize> {
         // Left/right entry index.
         let mut left = 0;
         let mut right = self.num_entries().checked_sub(1)?;
@@ -172,9 +171,41 @@ impl<'a> InternalNode<'a> {
             }
         }
 
-        let index = left.checked_sub(1)?;
+        left.checked_sub(1)
+    }
+
+    /// Find the child block index for the `lookup_hash`.
+    #[cfg(test)]
+    fn lookup_block_by_hash(
+        &self,
+        lookup_hash: DirHash,
+    ) -> Option<FileBlockIndex> {
+        let index = self.lookup_index_by_hash(lookup_hash)?;
         Some(self.get_entry(index).1)
     }
+
+    /// Find all child blocks that may contain entries with the
+    /// `lookup_hash`, in the order they should be searched.
+    ///
+    /// Usually there is only one. However, when a block is split between
+    /// entries that have the same hash, the lowest bit of the second
+    /// block's hash key is set to indicate that it continues the
+    /// previous block. (That bit is always clear in the hash of a name.)
+    fn lookup_blocks_by_hash(
+        &self,
+        lookup_hash: DirHash,
+    ) -> Option<Vec<FileBlockIndex>> {
+        let first = self.lookup_index_by_hash(lookup_hash)?;
+        let mut blocks = vec![self.get_entry(first).1];
+        for index in first.checked_add(1)?..self.num_entries() {
+            let (hash, block) = self.get_entry(index);
+            if hash & !1 != lookup_hash {
+                break;
+            }
+            blocks.push(block);
+        }
+        Some(blocks)
+    }
 }
 
 /// Read the block containing the root node of an htree into
@@ -285,16 +316,51 @@ fn block_from_file_block(
     }
 }
 
-/// Traverse the htree to find the leaf node that might contain `name`.
+/// Linear search through a leaf block for the entry called `name`.
+fn find_entry_in_leaf(
+    fs: &Ext4,
+    inode: &Inode,
+    name: DirEntryName<'_>,
+    block: &[u8],
+) -> Result<Option<DirEntry>, Ext4Error> {
+    // The entry's `path()` method will not be called, so the value of
+    // the base path does not matter.
+    let path = Rc::new(PathBuf::empty());
+
+    let mut offset_within_block = 0;
+    while offset_within_block < block.len() {
+        let (dir_entry, entry_size) = DirEntry::from_bytes(
+            fs.clone(),
+            &block[offset_within_block..],
+            inode.index,
+            path.clone(),
+        )?;
+        offset_within_block = offset_within_block
+            .checked_add(entry_size.get())
+            .ok_or(CorruptKind::DirEntry(inode.index))?;
+        let Some(dir_entry) = dir_entry else {
+            continue;
+        };
+
+        if dir_entry.file_name() == name {
+            return Ok(Some(dir_entry));
+        }
+    }
+
+    Ok(None)
+}
+
+/// Traverse the htree to the leaf nodes that might contain `name`, and
+/// search them for the entry.
 ///
-/// On success, `block` will contain the leaf node's directory block
-/// data.
-fn find_leaf_node(
+/// When called, `block` must contain the root node's directory block
+/// data. It is overwritten with the data of the other blocks.
+fn find_entry(
     fs: &Ext4,
     inode: &Inode,
     name: DirEntryName<'_>,
     block: &mut [u8],
-) -> Result<(), Ext4Error> {
+) -> Result<Option<DirEntry>, Ext4Error> {
     // Read the htree's hash type from the root block.
     let hash_alg = HashAlg::from_u8(block[0x1c])?;
 
@@ -308,18 +374,30 @@ fn find_leaf_node(
     let root_node = InternalNode::from_root_block(block, inode.index)?;
 
     let hash = hash_alg.hash(name, &fs.0.superblock.htree_hash_seed);
-    let mut child_block_relative = root_node
-        .lookup_block_by_hash(hash)
-        .ok_or(CorruptKind::DirEntry(inode.index))?;
-
-    // Descend through the tree one level at a time. The first iteration
-    // of the loop goes from the root node to a child. The last
-    // iteration (which may also be the first iteration) will read the
-    // leaf node data into `block`.
-    for level in 0..=depth {
+
+    // Blocks that have yet to be searched, and the level of the tree
+    // that each is in. The last one is searched first.
+    let mut todo: Vec<(FileBlockIndex, u8)> = Vec::new();
+    let add_children = |todo: &mut Vec<_>, node: InternalNode<'_>, level| {
+        let children = node
+            .lookup_blocks_by_hash(hash)
+            .ok_or(CorruptKind::DirEntry(inode.index))?;
+        todo.extend(children.into_iter().rev().map(|child| (child, level)));
+        Ok::<_, Ext4Error>(())
+    };
+    add_children(&mut todo, root_node, 0)?;
+
+    // Blocks that have been searched. Each block is part of the tree only
+    // once.
+    let mut searched = BTreeSet::new();
+
+    while let Some((relative_block, level)) = todo.pop() {
+        if !searched.insert(relative_block) {
+            return Err(CorruptKind::DirEntry(inode.index).into());
+        }
+
         // Get the absolute block index and read the block's data.
-        let block_index =
-            block_from_file_block(fs, inode, child_block_relative)?;
+        let block_index = block_from_file_block(fs, inode, relative_block)?;
         let dir_block = DirBlock {
             fs,
             dir_inode: inode.index,
@@ -330,19 +408,20 @@ fn find_leaf_node(
         };
         dir_block.read(block)?;
 
-        // If the block is an internal node, find the next child
-        // block. Otherwise, we've reached a leaf node and there's
-        // nothing more to do.
-        if level != depth {
+        // If the block is an internal node, add its child blocks.
+        // Otherwise, it's a leaf node that may contain the entry.
+        if level < depth {
             let inner_node =
                 InternalNode::from_non_root_block(block, inode.index)?;
-            child_block_relative = inner_node
-                .lookup_block_by_hash(hash)
-                .ok_or(CorruptKind::DirEntry(inode.index))?;
+            // OK to unwrap: `level` is less than `depth`.
+            add_children(&mut todo, inner_node, level.checked_add(1).unwrap())?;
+        } else if let Some(entry) = find_entry_in_leaf(fs, inode, name, block)?
+        {
+            return Ok(Some(entry));
         }
     }
 
-    Ok(())
+    Ok(None)
 }
 
 /// Find a directory entry via a directory htree. The htree is a tree of
@@ -373,36 +452,7 @@ pub(crate) fn get_dir_entry_via_htree(
         return Ok(entry);
     }
 
-    // Find the leaf node that might contain the entry. This will update
-    // `block` to contain the leaf node's block data.
-    find_leaf_node(fs, inode, name, &mut block)?;
-
-    // The entry's `path()` method will not be called, so the value of
-    // the base path does not matter.
-    let path = Rc::new(PathBuf::empty());
-
-    // Do a linear search through the leaf block for the right entry.
-    let mut offset_within_block = 0;
-    while offset_within_block < block.len() {
-        let (dir_entry, entry_size) = DirEntry::from_bytes(
-            fs.clone(),
-            &block[offset_within_block..],
-            inode.index,
-            path.clone(),
-        )?;
-        offset_within_block = offset_within_block
-            .checked_add(entry_size.get())
-            .ok_or(CorruptKind::DirEntry(inode.index))?;
-        let Some(dir_entry) = dir_entry else {
-            continue;
-        };
-
-        if dir_entry.file_name() == name {
-            return Ok(dir_entry);
-        }
-    }
-
-    Err(Ext4Error::NotFound)
+    find_entry(fs, inode, name, &mut block)?.ok_or(Ext4Error::NotFound)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e5dc3186b101f6e0a9c91d1b193a5ef99301036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 17/28] fix: names with non-ASCII bytes were not found if
 directory hashes are unsigned

If the filesystem was created on a platform with an unsigned char type,
a superblock flag says that the bytes of names are hashed as unsigned
integers.
---
 src/dir_entry_hash.rs | 42 ++++++++++++++++++++++++++++++++++++------
 src/dir_htree.rs      |  7 ++++++-
 src/lib.rs            |  5 +++++
 src/superblock.rs     | 14 ++++++++++++++
 4 files changed, 61 insertions(+), 7 deletions(-)

diff --git a/src/dir_entry_hash.rs b/src/dir_entry_hash.rs
index 96710f5..e882b46 100644
--- a/src/dir_entry_hash.rs
+++ b/src/dir_entry_hash.rs
@@ -67,10 +67,30 @@ impl HashAlg {
     /// The `seed` value comes from the `s_hash_seed` field of the
     /// superblock. If the `seed` is all zeroes, it's replaced with a
     /// standard default seed.
-    pub(crate) fn hash(
+    pub(crate) fn hash(&self, name: DirEntryName<'_>, seed: &[u32; 4]) -> u32 {
+        self.hash_with(name, seed, sign_extend_byte_to_u32)
+    }
+
+    /// Same as [`hash`], but the bytes of `name` are treated as unsigned
+    /// integers rather than signed integers.
+    ///
+    /// This is used by filesystems that were created on a platform where
+    /// the C `char` type is unsigned.
+    ///
+    /// [`hash`]: Self::hash
+    pub(crate) fn hash_unsigned(
+        &self,
+        name: DirEntryName<'_>,
+        seed: &[u32; 4],
+    ) -> u32 {
+        self.hash_with(name, seed, u32::from)
+    }
+
+    fn hash_with(
         &self,
         name: DirEntryName<'_>,
         mut seed: &[u32; 4],
+        byte_to_u32: fn(u8) -> u32,
     ) -> u32 {
         // Replace all-zero seed with a standard default seed.
         if seed == &[0; 4] {
@@ -90,7 +110,7 @@ impl HashAlg {
                 for chunk in
                     name.as_ref().chunks(mem::size_of::<HashBlock<8>>())
                 {
-                    let inp = create_hash_block(chunk);
+                    let inp = create_hash_block_with(chunk, byte_to_u32);
                     md4_half(&mut state, &inp);
                 }
 
@@ -101,7 +121,7 @@ impl HashAlg {
                 for chunk in
                     name.as_ref().chunks(mem::size_of::<HashBlock<4>>())
                 {
-                    let inp = create_hash_block(chunk);
+                    let inp = create_hash_block_with(chunk, byte_to_u32);
                     tea(&mut state, &inp);
                 }
 
@@ -213,8 +233,18 @@ fn sign_extend_byte_to_u32(byte: u8) -> u32 {
     sbyte as u32
 }
 
+/// Create the 32-byte block of data that will be hashed, with the bytes
+/// of `src` treated as signed integers.
+#[cfg(test)]
+fn create_hash_block<const N: usize>(src: &[u8]) -> HashBlock<N> {
+    create_hash_block_with(src, sign_extend_byte_to_u32)
+}
+
 /// Create the 32-byte block of data that will be hashed.
-fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
+fn create_hash_block_with<const N: usize>(
+    mut src: &[u8],
+    byte_to_u32: fn(u8) -> u32,
+) -> HashBlock<N> {
     let mut dst = [Wu32::default(); N];
 
     // Get padding value. If `src` is smaller than the block size (4 * N
@@ -228,8 +258,8 @@ fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
         // Process up to four bytes of `src`.
         for _ in 0..4 {
             if let Some(src_byte) = src.first() {
-                // Sign extend the byte into a `u32`.
-                let src_u32 = sign_extend_byte_to_u32(*src_byte);
+                // Convert the byte to a `u32`, sign extended if needed.
+                let src_u32 = byte_to_u32(*src_byte);
                 elem = src_u32.wrapping_add(elem << 8);
 
                 src = &src[1..];
diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 9da837f..9ce3cbc 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -373,7 +373,12 @@ fn find_entry(
     // Get the node structure from the root block.
     let root_node = InternalNode::from_root_block(block, inode.index)?;
 
-    let hash = hash_alg.hash(name, &fs.0.superblock.htree_hash_seed);
+    let seed = &fs.0.superblock.htree_hash_seed;
+    let hash = if fs.0.htree_unsigned_hash {
+        hash_alg.hash_unsigned(name, seed)
+    } else {
+        hash_alg.hash(name, seed)
+    };
 
     // Blocks that have yet to be searched, and the level of the tree
     // that each is in. The last one is searched first.
diff --git a/src/lib.rs b/src/lib.rs
index 6b7bbd7..02db608 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -175,6 +175,10 @@ struct Ext4Inner {
     journal: Journal,
     block_cache: RefCell<BlockCache>,
 
+    /// Whether the hashes in directory htrees treat the bytes of a name
+    /// as unsigned integers.
+    htree_unsigned_hash: bool,
+
     /// Reader providing access to the underlying storage.
     ///
     /// Stored as `Box<dyn Ext4Read>` rather than a generic type to make
@@ -225,6 +229,7 @@ impl Ext4 {
             // journal requires a valid `Ext4` object.
             journal: Journal::empty(),
             block_cache: RefCell::new(block_cache),
+            htree_unsigned_hash: Superblock::has_unsigned_hash(&data),
         }));
 
         // Load the actual journal, if present.
diff --git a/src/superblock.rs b/src/superblock.rs
index dc41ff0..f49b6b6 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -206,6 +206,20 @@ impl Superblock {
             uuid,
         })
     }
+
+    /// Get whether directory hashes treat names as unsigned bytes.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the length of `bytes` is less than
+    /// [`Self::SIZE_IN_BYTES_ON_DISK`].
+    pub(crate) fn has_unsigned_hash(bytes: &[u8]) -> bool {
+        assert!(bytes.len() >= Self::SIZE_IN_BYTES_ON_DISK);
+
+        const EXT2_FLAGS_UNSIGNED_HASH: u32 = 0x2;
+        let s_flags = read_u32le(bytes, 0x160);
+        s_flags & EXT2_FLAGS_UNSIGNED_HASH != 0
+    }
 }
 
 fn check_incompat_features(
-- 
2.43.0


From 8727e23ee819c438a1ba27ec169c62e906756b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 18/28] fix: directory entries that fill a 64KiB block were
 misread

The size of such an entry is stored as 65,535 or 0.
---
 src/dir_block.rs |  6 ++++--
 src/dir_entry.rs | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index 081d8fd..b5e952b 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -9,6 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
+use crate::dir_entry::decode_rec_len;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::InodeIndex;
 use crate::util::{read_u16le, read_u32le};
@@ -155,8 +156,9 @@ impl DirBlock<'_> {
 
         // Other internal nodes are identified by the first record
         // having a length equal to the whole block.
-        let first_rec_len = read_u16le(block, 4);
-        if first_rec_len == self.fs.0.superblock.block_size {
+        let block_size = self.fs.0.superblock.block_size;
+        let first_rec_len = decode_rec_len(read_u16le(block, 4), block_size);
+        if first_rec_len == block_size {
             DirBlockType::Internal
         } else {
             DirBlockType::Leaf
diff --git a/src/dir_entry.rs b/src/dir_entry.rs
index 36db391..93cba19 100644
--- a/src/dir_entry.rs
+++ b/src/dir_entry.rs
@@ -7,6 +7,7 @@
 // except according to those terms.
 
 use crate::Ext4;
+use crate::block_size::BlockSize;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::file_type::FileType;
 use crate::format::{BytesDisplay, format_bytes_debug};
@@ -201,6 +202,19 @@ impl TryFrom<&[u8]> for DirEntryNameBuf {
     }
 }
 
+/// Get the size in bytes of a directory entry from the value stored in the
+/// entry's `rec_len` field.
+///
+/// If the block size is 64KiB, the size of an entry that takes up a whole
+/// block doesn't fit in the field. It's stored as 65,535 or 0 instead.
+pub(crate) fn decode_rec_len(rec_len: u16, block_size: BlockSize) -> usize {
+    if block_size == 65_536 && (rec_len == u16::MAX || rec_len == 0) {
+        block_size.to_usize()
+    } else {
+        usize::from(rec_len)
+    }
+}
+
 /// Directory entry.
 #[derive(Clone)]
 pub struct DirEntry {
@@ -256,8 +270,8 @@ impl DirEntry {
         let points_to_inode = read_u32le(bytes, 0);
 
         // Get the full size of the entry.
-        let rec_len = read_u16le(bytes, 4);
-        let rec_len = usize::from(rec_len);
+        let rec_len =
+            decode_rec_len(read_u16le(bytes, 4), fs.0.superblock.block_size);
 
         // Check that the rec_len is somewhat reasonable. Too small a
         // value could indicate the wrong data is being read. And
-- 
2.43.0


From 5cba4add304bdd7c9dbfbe9b8597ae061ff7fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 19/28] fix: inodes without space for the full checksum were
 treated as corrupt

Inodes of 128 bytes, and larger ones in which the checksum's upper half
is not part of the extra fields in use, only contain the lower half.
---
 src/inode.rs | 60 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/inode.rs b/src/inode.rs
index 15ad801..6a0601b 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -119,6 +119,20 @@ impl Inode {
     const L_I_CHECKSUM_LO_OFFSET: usize = 0x74 + 0x8;
     const I_CHECKSUM_HI_OFFSET: usize = 0x82;
 
+    /// Check whether the inode is large enough to contain the upper half
+    /// of the checksum. If not, only the lower half is stored.
+    ///
+    /// The size of the fields past the first 128 bytes is stored in the
+    /// `i_extra_isize` field.
+    fn has_checksum_hi(data: &[u8]) -> bool {
+        const I_EXTRA_ISIZE_OFFSET: usize = 0x80;
+        const CHECKSUM_HI_END: usize = Inode::I_CHECKSUM_HI_OFFSET + 2;
+
+        data.len() >= CHECKSUM_HI_END
+            && usize::from(read_u16le(data, I_EXTRA_ISIZE_OFFSET))
+                >= CHECKSUM_HI_END - I_EXTRA_ISIZE_OFFSET
+    }
+
     /// Load an inode from `bytes`.
     ///
     /// If successful, returns a tuple containing the inode and its
@@ -137,18 +151,6 @@ impl Inode {
             .into());
         }
 
-        // If metadata checksums are enabled, the inode must be big
-        // enough to include the checksum fields.
-        if ext4.has_metadata_checksums()
-            && data.len() < (Self::I_CHECKSUM_HI_OFFSET + 2)
-        {
-            return Err(CorruptKind::InodeTruncated {
-                inode: index,
-                size: data.len(),
-            }
-            .into());
-        }
-
         let i_mode = read_u16le(data, 0x0);
         let i_uid = read_u16le(data, 0x2);
         let i_size_lo = read_u32le(data, 0x4);
@@ -164,7 +166,11 @@ impl Inode {
         {
             (
                 read_u16le(data, Self::L_I_CHECKSUM_LO_OFFSET),
-                read_u16le(data, Self::I_CHECKSUM_HI_OFFSET),
+                if Self::has_checksum_hi(data) {
+                    read_u16le(data, Self::I_CHECKSUM_HI_OFFSET)
+                } else {
+                    0
+                },
             )
         } else {
             // If metadata checksums aren't enabled then these values
@@ -238,19 +244,27 @@ impl Inode {
             // Zero'd field.
             checksum.update_u16_le(0);
 
-            // Up to the i_checksum_hi field.
-            checksum.update(
-                &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
-                    ..Self::I_CHECKSUM_HI_OFFSET],
-            );
+            let actual_checksum = if Self::has_checksum_hi(&data) {
+                // Up to the i_checksum_hi field.
+                checksum.update(
+                    &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
+                        ..Self::I_CHECKSUM_HI_OFFSET],
+                );
 
-            // Zero'd field.
-            checksum.update_u16_le(0);
+                // Zero'd field.
+                checksum.update_u16_le(0);
+
+                // Rest of the inode.
+                checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
 
-            // Rest of the inode.
-            checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
+                checksum.finalize()
+            } else {
+                // Rest of the inode.
+                checksum.update(&data[Self::L_I_CHECKSUM_LO_OFFSET + 2..]);
 
-            let actual_checksum = checksum.finalize();
+                // Only the lower half of the checksum is stored.
+                checksum.finalize() & 0xffff
+            };
             if actual_checksum != expected_checksum {
                 return Err(CorruptKind::InodeChecksum(inode.index).into());
             }
-- 
2.43.0


From 34e553aa4a6e2b0d3267cd36b1f7044d37949529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 20/28] fix: read errors while looking for the start of the
 journal were ignored

The filesystem was loaded as if the journal was empty.
---
 src/journal/block_map.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 266c41a..538a572 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -25,7 +25,7 @@ use crate::util::usize_from_u32;
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
-use core::iter::{Chain, Skip, Take};
+use core::iter::{Chain, Take};
 
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
@@ -94,7 +94,7 @@ struct BlockMapLoader<'a> {
     /// iterator is advanced to the journal start block. After the last
     /// block of the journal it continues with the first block after the
     /// journal superblock, and ends when all blocks have been visited.
-    journal_block_iter: Chain<Skip<FileBlocks>, Take<Skip<FileBlocks>>>,
+    journal_block_iter: Chain<FileBlocks, Take<FileBlocks>>,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -129,16 +129,21 @@ impl<'a> BlockMapLoader<'a> {
     ) -> Result<Self, Ext4Error> {
         let start_block = usize_from_u32(superblock.start_block);
 
-        // Get an iterator over the journal's block indices, skipping
-        // forward to the start block.
-        let until_end =
-            FileBlocks::new(fs.clone(), journal_inode)?.skip(start_block);
+        // Get an iterator over the journal's block indices, starting
+        // from the start block. `Iterator::skip` isn't used because it
+        // would also skip errors.
+        let mut until_end = FileBlocks::new(fs.clone(), journal_inode)?;
+        for block_index in until_end.by_ref().take(start_block) {
+            block_index?;
+        }
 
         // The journal is circular. Get an iterator over the blocks
         // between the journal superblock and the start block.
-        let until_start = FileBlocks::new(fs.clone(), journal_inode)?
-            .skip(1)
-            .take(start_block.saturating_sub(1));
+        let mut until_start = FileBlocks::new(fs.clone(), journal_inode)?;
+        if let Some(block_index) = until_start.next() {
+            block_index?;
+        }
+        let until_start = until_start.take(start_block.saturating_sub(1));
 
         let journal_block_iter = until_end.chain(until_start);
 
-- 
2.43.0


From d8f457c7c93053c997b3df239e24e19f69354b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 21/28] fix: a device error while looking up a directory block
 was reported as corruption

---
 src/dir_htree.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 9ce3cbc..cdf8ac7 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -310,9 +310,11 @@ fn block_from_file_block(
         Ok(absolute_block)
     } else {
         let mut block_map = FileBlocks::new(fs.clone(), inode)?;
-        block_map
-            .nth(usize_from_u32(relative_block))
-            .ok_or(CorruptKind::DirEntry(inode.index))?
+        // `Iterator::nth` isn't used because it would skip errors.
+        for block in block_map.by_ref().take(usize_from_u32(relative_block)) {
+            block?;
+        }
+        block_map.next().ok_or(CorruptKind::DirEntry(inode.index))?
     }
 }
 
-- 
2.43.0


From dde4f70659b1d196eb8a212343b8dc676fd2ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 22/28] fix: extent trees that refer to the same node
 repeatedly took exponential time

---
 src/error.rs         |  6 ++++++
 src/iters/extents.rs | 23 ++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 87ec8c2..5c62433 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -329,6 +329,9 @@ pub(crate) enum CorruptKind {
     /// An extent node's size exceeds the block size.
     ExtentNodeSize(InodeIndex),
 
+    /// The internal nodes of an extent tree are not in order.
+    ExtentOrder(InodeIndex),
+
     /// A directory block's checksum is invalid.
     DirBlockChecksum(InodeIndex),
 
@@ -518,6 +521,9 @@ impl Display for CorruptKind {
                     "extent in inode {inode} has a node with an invalid size"
                 )
             }
+            Self::ExtentOrder(inode) => {
+                write!(f, "extent nodes in inode {inode} are not in order")
+            }
             Self::DirBlockChecksum(inode) => write!(
                 f,
                 "directory block in inode {inode} has an invalid checksum"
diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index caf0099..26da800 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -22,6 +22,9 @@ const ENTRY_SIZE_IN_BYTES: usize = 12;
 /// Maximum length in blocks of an initialized extent.
 const MAX_INITIALIZED_EXTENT_LEN: u16 = 32768;
 
+/// Maximum number of levels in an extent tree.
+const MAX_LEVELS: usize = 6;
+
 /// Header at the start of a node in an extent tree.
 ///
 /// An extent tree is made up of nodes. Each node may be internal or
@@ -88,7 +91,7 @@ impl NodeHeader {
             return Err(CorruptKind::ExtentMagic(inode).into());
         }
 
-        if eh_depth > 5 {
+        if usize::from(eh_depth) >= MAX_LEVELS {
             return Err(CorruptKind::ExtentDepth(inode).into());
         }
 
@@ -156,6 +159,11 @@ pub(crate) struct Extents {
     ext4: Ext4,
     inode: InodeIndex,
     to_visit: Vec<ToVisitItem>,
+
+    /// For each depth, the block within the file of the most recent
+    /// entry in an internal node of that depth.
+    prev_internal_block: [Option<u32>; MAX_LEVELS],
+
     checksum_base: Checksum,
     is_done: bool,
 }
@@ -169,6 +177,7 @@ impl Extents {
                 inode.inline_data.to_vec(),
                 inode.index,
             )?],
+            prev_internal_block: [None; MAX_LEVELS],
             checksum_base: inode.checksum_base.clone(),
             is_done: false,
         })
@@ -236,6 +245,18 @@ impl Extents {
         } else {
             let child_depth = item.depth.checked_sub(1);
 
+            // The entries of all nodes at the same depth are in order. If
+            // they are not, the tree could refer to the same nodes again
+            // and again, with a number of paths through the tree that is
+            // exponential in its depth.
+            let ei_block = read_u32le(entry, 0);
+            let prev_block =
+                &mut self.prev_internal_block[usize::from(item.depth)];
+            if prev_block.is_some_and(|prev_block| ei_block <= prev_block) {
+                return Err(CorruptKind::ExtentOrder(self.inode).into());
+            }
+            *prev_block = Some(ei_block);
+
             let ei_leaf_lo = read_u32le(entry, 4);
             let ei_leaf_hi = read_u16le(entry, 8);
             let child_block = u64_from_hilo(u32::from(ei_leaf_hi), ei_leaf_lo);
-- 
2.43.0


From c75e6ba4c0d97b3f330109e189089f3a61d0c2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 23/28] fix: directories larger than the filesystem were read
 almost forever

---
 src/iters/file_blocks.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iters/file_blocks.rs b/src/iters/file_blocks.rs
index d7c3e43..4941192 100644
--- a/src/iters/file_blocks.rs
+++ b/src/iters/file_blocks.rs
@@ -10,6 +10,7 @@ mod block_map;
 mod extents_blocks;
 
 use crate::block_index::FsBlockIndex;
+use crate::error::CorruptKind;
 use crate::inode::{Inode, InodeFlags};
 use crate::{Ext4, Ext4Error};
 use block_map::BlockMap;
@@ -32,6 +33,15 @@ pub(crate) struct FileBlocks(FileBlocksInner);
 
 impl FileBlocks {
     pub(crate) fn new(fs: Ext4, inode: &Inode) -> Result<Self, Ext4Error> {
+        // Directories do not have holes, so they cannot have more blocks
+        // than the filesystem.
+        if inode.metadata.is_dir()
+            && u64::from(inode.file_size_in_blocks())
+                > fs.0.superblock.blocks_count
+        {
+            return Err(CorruptKind::TooManyBlocksInFile.into());
+        }
+
         if inode.flags.contains(InodeFlags::EXTENTS) {
             Ok(Self(FileBlocksInner::ExtentsBlocks(ExtentsBlocks::new(
                 fs, inode,
-- 
2.43.0


From b8d70f80500fa0acea17effdb384c2cf0dad5f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 24/28] fix: a journal larger than the filesystem was read
 almost forever

---
 src/iters/file_blocks.rs |  4 ++--
 src/journal.rs           | 11 ++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/iters/file_blocks.rs b/src/iters/file_blocks.rs
index 4941192..f368983 100644
--- a/src/iters/file_blocks.rs
+++ b/src/iters/file_blocks.rs
@@ -9,10 +9,10 @@
 mod block_map;
 mod extents_blocks;
 
+use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::CorruptKind;
+use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::{Inode, InodeFlags};
-use crate::{Ext4, Ext4Error};
 use block_map::BlockMap;
 use extents_blocks::ExtentsBlocks;
 
diff --git a/src/journal.rs b/src/journal.rs
index 6fe4346..e310f4a 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -15,7 +15,7 @@ mod superblock;
 
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::Ext4Error;
+use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::Inode;
 use block_map::{BlockMap, load_block_map};
 use superblock::JournalSuperblock;
@@ -47,6 +47,15 @@ impl Journal {
         };
 
         let journal_inode = Inode::read(fs, journal_inode)?;
+
+        // The journal does not have holes, so it cannot have more blocks
+        // than the filesystem.
+        if u64::from(journal_inode.file_size_in_blocks())
+            > fs.0.superblock.blocks_count
+        {
+            return Err(CorruptKind::JournalSize.into());
+        }
+
         let superblock = JournalSuperblock::load(fs, &journal_inode)?;
         let block_map = load_block_map(fs, &superblock, &journal_inode)?;
 
-- 
2.43.0


From 70c5e404c519849666e069cde337ad0108d9d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 25/28] fix: the size of a journal revoke block includes its
 header

The size field counts the 16 bytes of the header. Reading that many bytes
of table took a nearly full revoke block for corrupt, which silently
dropped its transaction and all later ones; in other blocks it read two
entries past the end of the table.
---
 src/journal/block_map.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 538a572..2da0a13 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -21,7 +21,7 @@ use crate::journal::revocation_block::{
     read_revocation_block_table, validate_revocation_block_checksum,
 };
 use crate::journal::superblock::JournalSuperblock;
-use crate::util::usize_from_u32;
+use crate::util::{read_u32be, usize_from_u32};
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
@@ -239,6 +239,16 @@ impl<'a> BlockMapLoader<'a> {
 
     fn process_revocation_block(&mut self) -> Result<(), Ext4Error> {
         validate_revocation_block_checksum(self.superblock, &self.block)?;
+
+        // The size field on disk includes the block header and the size
+        // field itself. Reduce it to the size of the table alone.
+        const SIZE_OFFSET: usize = JournalBlockHeader::SIZE;
+        const TABLE_OFFSET: u32 = 16;
+        let num_bytes =
+            read_u32be(&self.block, SIZE_OFFSET).saturating_sub(TABLE_OFFSET);
+        self.block[SIZE_OFFSET..usize_from_u32(TABLE_OFFSET)]
+            .copy_from_slice(&num_bytes.to_be_bytes());
+
         read_revocation_block_table(&self.block, &mut self.revoked_blocks)
     }
 
-- 
2.43.0


From 7936733f1eea293c7e395ea5d65f391d23205524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 26/28] fix: superblock and group descriptors in the journal
 were ignored

After a crash the journal may contain a newer superblock (new label,
UUID or size) and newer block group descriptors (groups added by a
resize). They are now read through the journal once it is loaded.
---
 src/block_group.rs | 27 ++++++++++++------
 src/journal.rs     |  5 ++++
 src/lib.rs         | 69 ++++++++++++++++++++++++++++++++++++++++++----
 3 files changed, 87 insertions(+), 14 deletions(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index 90153a8..7025279 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -6,7 +6,6 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
-use crate::Ext4Read;
 use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
@@ -74,11 +73,16 @@ impl BlockGroupDescriptor {
     }
 
     /// Read a block group descriptor.
-    fn read(
+    ///
+    /// `read` gets data from an absolute byte within the filesystem.
+    fn read<F>(
         sb: &Superblock,
-        reader: &mut dyn Ext4Read,
+        read: &mut F,
         bgd_index: BlockGroupIndex,
-    ) -> Result<Self, Ext4Error> {
+    ) -> Result<Self, Ext4Error>
+    where
+        F: FnMut(u64, &mut [u8]) -> Result<(), Ext4Error>,
+    {
         // Allocate a byte vec to read the raw data into.
         let block_group_descriptor_size =
             usize::from(sb.block_group_descriptor_size);
@@ -86,7 +90,7 @@ impl BlockGroupDescriptor {
 
         let start = Self::get_start_byte(sb, bgd_index)
             .ok_or(CorruptKind::BlockGroupDescriptor(bgd_index))?;
-        reader.read(start, &mut data).map_err(Ext4Error::Io)?;
+        read(start, &mut data)?;
 
         let block_group_descriptor = Self::from_bytes(sb, &data);
 
@@ -126,17 +130,22 @@ impl BlockGroupDescriptor {
     }
 
     /// Read all block group descriptors.
-    pub(crate) fn read_all(
+    ///
+    /// `read` gets data from an absolute byte within the filesystem.
+    pub(crate) fn read_all<F>(
         sb: &Superblock,
-        reader: &mut dyn Ext4Read,
-    ) -> Result<Vec<Self>, Ext4Error> {
+        mut read: F,
+    ) -> Result<Vec<Self>, Ext4Error>
+    where
+        F: FnMut(u64, &mut [u8]) -> Result<(), Ext4Error>,
+    {
         // The number of block groups is not known to be correct, so don't
         // allocate memory based on it; reading the descriptors will
         // return an error if there are fewer.
         let mut block_group_descriptors = Vec::new();
 
         for bgd_index in 0..sb.num_block_groups {
-            let bgd = Self::read(sb, reader, bgd_index)?;
+            let bgd = Self::read(sb, &mut read, bgd_index)?;
             block_group_descriptors.push(bgd);
         }
 
diff --git a/src/journal.rs b/src/journal.rs
index e310f4a..2f9220d 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -62,6 +62,11 @@ impl Journal {
         Ok(Self { block_map })
     }
 
+    /// True if no blocks are replaced by the journal.
+    pub(crate) fn is_empty(&self) -> bool {
+        self.block_map.is_empty()
+    }
+
     /// Map from an absolute block index to a block in the journal.
     ///
     /// If the journal does not contain a replacement for the input
diff --git a/src/lib.rs b/src/lib.rs
index 02db608..6e25701 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -169,6 +169,10 @@ pub use path::{Component, Components, Path, PathBuf, PathError};
 pub use reader::{Ext4Read, MemIoError};
 pub use uuid::Uuid;
 
+/// Absolute byte where the superblock starts. The bytes before that are
+/// reserved for "weird" stuff like x86 boot sectors.
+const SUPERBLOCK_START: u64 = 1024;
+
 struct Ext4Inner {
     superblock: Superblock,
     block_group_descriptors: Vec<BlockGroupDescriptor>,
@@ -206,12 +210,9 @@ impl Ext4 {
     /// This reads and validates the superblock, block group
     /// descriptors, and journal. No other data is read.
     pub fn load(mut reader: Box<dyn Ext4Read>) -> Result<Self, Ext4Error> {
-        // The first 1024 bytes are reserved for "weird" stuff like x86
-        // boot sectors.
-        let superblock_start = 1024;
         let mut data = vec![0; Superblock::SIZE_IN_BYTES_ON_DISK];
         reader
-            .read(superblock_start, &mut data)
+            .read(SUPERBLOCK_START, &mut data)
             .map_err(Ext4Error::Io)?;
 
         let superblock = Superblock::from_bytes(&data)?;
@@ -221,7 +222,7 @@ impl Ext4 {
         let mut fs = Self(Rc::new(Ext4Inner {
             block_group_descriptors: BlockGroupDescriptor::read_all(
                 &superblock,
-                &mut *reader,
+                |start, dst| reader.read(start, dst).map_err(Ext4Error::Io),
             )?,
             reader: RefCell::new(reader),
             superblock,
@@ -235,10 +236,68 @@ impl Ext4 {
         // Load the actual journal, if present.
         let journal = Journal::load(&fs)?;
         Rc::get_mut(&mut fs.0).unwrap().journal = journal;
+        fs.read_journaled_superblock()?;
 
         Ok(fs)
     }
 
+    /// Update the superblock and block group descriptors from the journal.
+    ///
+    /// Loading the journal requires a superblock and descriptors, so they
+    /// are initially read from their regular location. The journal may
+    /// contain newer versions of them though, for example if the
+    /// filesystem was given a new label or was resized while mounted.
+    fn read_journaled_superblock(&mut self) -> Result<(), Ext4Error> {
+        if self.0.journal.is_empty() {
+            return Ok(());
+        }
+
+        let block_size = self.0.superblock.block_size;
+        let superblock_block = SUPERBLOCK_START / block_size.to_nz_u64();
+        let offset_within_block =
+            // OK to unwrap: less than the block size, which is a `u32`.
+            u32::try_from(SUPERBLOCK_START % block_size.to_nz_u64()).unwrap();
+
+        if self.0.journal.map_block_index(superblock_block) != superblock_block
+        {
+            let mut data = vec![0; Superblock::SIZE_IN_BYTES_ON_DISK];
+            self.read_from_block(
+                superblock_block,
+                offset_within_block,
+                &mut data,
+            )?;
+
+            let superblock = Superblock::from_bytes(&data)?;
+            if superblock.block_size != block_size {
+                return Err(CorruptKind::InvalidBlockSize.into());
+            }
+            let block_cache =
+                BlockCache::new(block_size, superblock.blocks_count)?;
+
+            // OK to unwrap: the filesystem has not been cloned yet.
+            let inner = Rc::get_mut(&mut self.0).unwrap();
+            inner.superblock = superblock;
+            inner.block_cache = RefCell::new(block_cache);
+            inner.htree_unsigned_hash = Superblock::has_unsigned_hash(&data);
+        }
+
+        let block_group_descriptors = BlockGroupDescriptor::read_all(
+            &self.0.superblock,
+            |start, dst| {
+                let block_index = start / block_size.to_nz_u64();
+                // OK to unwrap: less than the block size, which is a `u32`.
+                let offset_within_block =
+                    u32::try_from(start % block_size.to_nz_u64()).unwrap();
+                self.read_from_block(block_index, offset_within_block, dst)
+            },
+        )?;
+        // OK to unwrap: the filesystem has not been cloned yet.
+        Rc::get_mut(&mut self.0).unwrap().block_group_descriptors =
+            block_group_descriptors;
+
+        Ok(())
+    }
+
     /// Load an `Ext4` filesystem from the given `path`.
     ///
     /// This reads and validates the superblock and block group
-- 
2.43.0


From 2a0106be355db4500da8fd01722f1509d550af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:39 +0000
Subject: [PATCH 27/28] fix: encrypted files and links were read as if they
 were not encrypted

---
 src/dir.rs            | 2 +-
 src/file.rs           | 6 +++++-
 src/inode.rs          | 9 +++++++--
 src/iters/read_dir.rs | 2 +-
 src/lib.rs            | 3 ++-
 5 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 6fbdc24..4a595dd 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -24,7 +24,7 @@ pub(crate) fn get_dir_entry_inode_by_name(
 ) -> Result<Inode, Ext4Error> {
     assert!(dir_inode.metadata.is_dir());
 
-    if dir_inode.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+    if dir_inode.flags.contains(InodeFlags::ENCRYPTED) {
         return Err(Ext4Error::Encrypted);
     }
 
diff --git a/src/file.rs b/src/file.rs
index 045093a..cd0226b 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -9,7 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::error::{CorruptKind, Ext4Error};
-use crate::inode::Inode;
+use crate::inode::{Inode, InodeFlags};
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
 use crate::path::Path;
@@ -63,6 +63,10 @@ impl File {
         fs: &Ext4,
         inode: Inode,
     ) -> Result<Self, Ext4Error> {
+        if inode.flags.contains(InodeFlags::ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         Ok(Self {
             fs: fs.clone(),
             position: 0,
diff --git a/src/inode.rs b/src/inode.rs
index 6a0601b..1aa8158 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -32,8 +32,8 @@ bitflags! {
         /// File is immutable.
         const IMMUTABLE = 0x10;
 
-        /// Directory is encrypted.
-        const DIRECTORY_ENCRYPTED = 0x800;
+        /// File, directory, or symlink target is encrypted.
+        const ENCRYPTED = 0x800;
 
         /// Directory has hashed indexes.
         const DIRECTORY_HTREE = 0x1000;
@@ -281,6 +281,11 @@ impl Inode {
             return Err(Ext4Error::NotASymlink);
         }
 
+        // The target is encrypted in the same way as file data.
+        if self.flags.contains(InodeFlags::ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         // An empty symlink target is not allowed.
         if self.metadata.size_in_bytes == 0 {
             return Err(CorruptKind::SymlinkTarget(self.index).into());
diff --git a/src/iters/read_dir.rs b/src/iters/read_dir.rs
index 9f299f0..47aab07 100644
--- a/src/iters/read_dir.rs
+++ b/src/iters/read_dir.rs
@@ -72,7 +72,7 @@ impl ReadDir {
     ) -> Result<Self, Ext4Error> {
         let has_htree = inode.flags.contains(InodeFlags::DIRECTORY_HTREE);
 
-        if inode.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+        if inode.flags.contains(InodeFlags::ENCRYPTED) {
             return Err(Ext4Error::Encrypted);
         }
 
diff --git a/src/lib.rs b/src/lib.rs
index 6e25701..d60d93d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -434,6 +434,8 @@ impl Ext4 {
     /// Fails with `FileTooLarge` if the size of the file is too large
     /// to fit in a [`usize`].
     fn read_inode_file(&self, inode: &Inode) -> Result<Vec<u8>, Ext4Error> {
+        let mut file = File::open_inode(self, inode.clone())?;
+
         // Get the file size and initialize the output vector.
         let file_size_in_bytes = usize::try_from(inode.metadata.size_in_bytes)
             .map_err(|_| Ext4Error::FileTooLarge)?;
@@ -445,7 +447,6 @@ impl Ext4 {
         dst.resize(file_size_in_bytes, 0);
 
         // Use `File` to read the data in chunks.
-        let mut file = File::open_inode(self, inode.clone())?;
         let mut remaining = dst.as_mut();
         loop {
             let bytes_read = file.read_bytes(remaining)?;
-- 
2.43.0


From dba122f7133bbf2705bca43c05ad8b1a392dfba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:23 +0000
Subject: [PATCH 28/28] fix: names with the highest hash were not found in some
 hashed directories

---
 src/dir_entry_hash.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dir_entry_hash.rs b/src/dir_entry_hash.rs
index e882b46..f50db3e 100644
--- a/src/dir_entry_hash.rs
+++ b/src/dir_entry_hash.rs
@@ -37,6 +37,9 @@ use crate::error::{Ext4Error, IncompatibleKind};
 use core::mem;
 use core::num::Wrapping;
 
+/// Hash value that Linux reserves for the end of a directory.
+const HASH_EOF: u32 = 0xffff_fffe;
+
 /// Directory entry hashing algorithm.
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 pub(crate) enum HashAlg {
@@ -129,8 +132,10 @@ impl HashAlg {
             }
         };
 
-        // Finalize the hash.
-        hash & !1
+        // Finalize the hash. The highest value is reserved as an
+        // end-of-directory marker, so the next lower one is used instead.
+        let hash = hash & !1;
+        if hash == HASH_EOF { HASH_EOF - 2 } else { hash }
     }
 }
 
-- 
2.43.0

