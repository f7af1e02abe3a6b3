From f0b7b1174b772c30d8ef1f8fd10600056159eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 01/21] fix: do not panic on an htree node whose entry count
 exceeds the block

---
 src/dir_block.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index b7138ee..680d257 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -68,7 +68,7 @@ impl DirBlock<'_> {
         let actual_checksum = if block_type == DirBlockType::Leaf {
             self.calc_leaf_checksum(block)
         } else {
-            self.calc_internal_checksum(block, block_type)
+            self.calc_internal_checksum(block, block_type)?
         };
 
         if actual_checksum.finalize() == expected_checksum {
@@ -105,7 +105,7 @@ impl DirBlock<'_> {
         &self,
         block: &[u8],
         block_type: DirBlockType,
-    ) -> Checksum {
+    ) -> Result<Checksum, Ext4Error> {
         let tail_entry_size = 8;
 
         // OK to unwrap: minimum block size is 1024.
@@ -130,12 +130,17 @@ impl DirBlock<'_> {
             .checked_add(usize::from(count).checked_mul(8).unwrap())
             .unwrap();
 
+        // The count comes from the disk, so it may be too large.
+        let covered = block
+            .get(..num_bytes)
+            .ok_or(CorruptKind::DirBlockChecksum(self.dir_inode))?;
+
         let mut checksum = self.checksum_base.clone();
-        checksum.update(&block[..num_bytes]);
+        checksum.update(covered);
         checksum.update_u32_le(read_u32le(block, tail_entry_offset));
         checksum.update_u32_le(0);
 
-        checksum
+        Ok(checksum)
     }
 
     fn get_block_type(&self, block: &[u8]) -> DirBlockType {
-- 
2.43.0


From 569e15ab13d45ce29b983e4d89129d910d6f6ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 02/21] fix: reject block group descriptor sizes that cannot
 hold the descriptor

---
 src/block_group.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/block_group.rs b/src/block_group.rs
index 47be0a7..d5f89db 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -26,6 +26,8 @@ pub(crate) struct BlockGroupDescriptor {
 
 impl BlockGroupDescriptor {
     const BG_CHECKSUM_OFFSET: usize = 0x1e;
+    const MIN_SIZE_32BIT: usize = 32;
+    const MIN_SIZE_64BIT: usize = 64;
 
     fn from_bytes(superblock: &Superblock, bytes: &[u8]) -> Self {
         const BG_INODE_TABLE_HI_OFFSET: usize = 0x28;
@@ -82,6 +84,21 @@ impl BlockGroupDescriptor {
         // Allocate a byte vec to read the raw data into.
         let block_group_descriptor_size =
             usize::from(sb.block_group_descriptor_size);
+
+        // The descriptor size comes from the disk, so it may be too small
+        // to hold all of the fields.
+        let min_size = if sb
+            .incompatible_features
+            .contains(IncompatibleFeatures::IS_64BIT)
+        {
+            Self::MIN_SIZE_64BIT
+        } else {
+            Self::MIN_SIZE_32BIT
+        };
+        if block_group_descriptor_size < min_size {
+            return Err(CorruptKind::BlockGroupDescriptor(bgd_index).into());
+        }
+
         let mut data = vec![0; block_group_descriptor_size];
 
         let start = Self::get_start_byte(sb, bgd_index)
-- 
2.43.0


From 9d4b5a01182bde49387b6d5d261669cd83c5f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 03/21] fix: do not preallocate memory for an unchecked number
 of block groups

---
 src/block_group.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index d5f89db..145e289 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -12,7 +12,7 @@ use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::features::{IncompatibleFeatures, ReadOnlyCompatibleFeatures};
 use crate::superblock::Superblock;
-use crate::util::{read_u16le, read_u32le, u64_from_hilo, usize_from_u32};
+use crate::util::{read_u16le, read_u32le, u64_from_hilo};
 use alloc::vec;
 use alloc::vec::Vec;
 
@@ -147,8 +147,9 @@ impl BlockGroupDescriptor {
         sb: &Superblock,
         reader: &mut dyn Ext4Read,
     ) -> Result<Vec<Self>, Ext4Error> {
-        let mut block_group_descriptors =
-            Vec::with_capacity(usize_from_u32(sb.num_block_groups));
+        // Don't preallocate: the number of block groups comes from the
+        // disk, and can be much larger than what can actually be read.
+        let mut block_group_descriptors = Vec::new();
 
         for bgd_index in 0..sb.num_block_groups {
             let bgd = Self::read(sb, reader, bgd_index)?;
-- 
2.43.0


From 7932cefea3288028478caf5db240e8516fe695e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 04/21] fix: return an error instead of panicking when a file
 runs out of blocks

---
 src/error.rs |  9 +++++++++
 src/file.rs  | 13 ++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index b5efa63..fcb1251 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -308,6 +308,9 @@ pub(crate) enum CorruptKind {
     /// The number of blocks in a file exceeds 2^32.
     TooManyBlocksInFile,
 
+    /// A file has fewer blocks than its size requires.
+    NotEnoughBlocksInFile(InodeIndex),
+
     /// An extent's magic is invalid.
     ExtentMagic(InodeIndex),
 
@@ -494,6 +497,12 @@ impl Display for CorruptKind {
                 write!(f, "inode {inode} has an invalid symlink path")
             }
             Self::TooManyBlocksInFile => write!(f, "too many blocks in file"),
+            Self::NotEnoughBlocksInFile(inode) => {
+                write!(
+                    f,
+                    "inode {inode} has fewer blocks than its size requires"
+                )
+            }
             Self::ExtentMagic(inode) => {
                 write!(f, "extent in inode {inode} has invalid magic")
             }
diff --git a/src/file.rs b/src/file.rs
index c9e6b7c..aa75713 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,7 @@
 
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::Ext4Error;
+use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::Inode;
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
@@ -126,10 +126,13 @@ impl File {
         let block_index = if let Some(block_index) = self.block_index {
             block_index
         } else {
-            // OK to unwrap: already checked that the position is not at
-            // the end of the file, so there must be at least one more
-            // block to read.
-            let block_index = self.file_blocks.next().unwrap()?;
+            // Already checked that the position is not at the end of
+            // the file, so there should be at least one more block to
+            // read. But there might not be, if the file's block map
+            // cannot address that block or if an earlier call failed.
+            let block_index = self.file_blocks.next().ok_or(
+                CorruptKind::NotEnoughBlocksInFile(self.inode.index),
+            )??;
 
             self.block_index = Some(block_index);
 
-- 
2.43.0


From adc05cfaa99527c990b2f6559ebb0f52251a7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 05/21] fix: stop seeking at the end of the file and report
 errors

---
 src/file.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index aa75713..5cfffd2 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -209,17 +209,23 @@ impl File {
     ///
     /// Seeking past the end of the file is allowed.
     pub fn seek_to(&mut self, position: u64) -> Result<(), Ext4Error> {
-        // Reset iteration.
-        self.file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
-        self.block_index = None;
+        // Reset iteration. Nothing is stored in `self` until the seek
+        // has succeeded.
+        let mut file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
 
         // Advance the block iterator by the number of whole blocks in
         // `position`.
         let num_blocks = position / self.fs.0.superblock.block_size.to_nz_u64();
         for _ in 0..num_blocks {
-            self.file_blocks.next();
+            // Stop at the end of the file; seeking past it is allowed.
+            let Some(block_index) = file_blocks.next() else {
+                break;
+            };
+            block_index?;
         }
 
+        self.file_blocks = file_blocks;
+        self.block_index = None;
         self.position = position;
 
         Ok(())
-- 
2.43.0


From b46b2ac6c99700cbabc9d691538c5ba7648ef953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 06/21] fix: reject extent trees whose node depth does not
 decrease

---
 src/iters/extents.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 4236c8a..b471c90 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -234,6 +234,12 @@ impl Extents {
             let child_header =
                 NodeHeader::from_bytes(&child_header, self.inode)?;
 
+            // The depth must decrease by exactly one at each level. This
+            // also ensures that a node cannot be its own descendant.
+            if child_header.depth.checked_add(1) != Some(item.depth) {
+                return Err(CorruptKind::ExtentDepth(self.inode).into());
+            }
+
             // The checksum is written in the four bytes directly after
             // the node.
             let checksum_offset = child_header.checksum_offset();
-- 
2.43.0


From faaf61088127fad310b83d7058d9636f46793d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 07/21] fix: treat unwritten extents as holes

---
 src/iters/extents.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index b471c90..76bb16f 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -19,6 +19,10 @@ use alloc::vec::Vec;
 /// entry).
 const ENTRY_SIZE_IN_BYTES: usize = 12;
 
+/// Maximum length (in blocks) of an initialized extent. A larger value
+/// in the extent's length field means that the extent is unwritten.
+const MAX_INITIALIZED_EXTENT_LEN: u16 = 32768;
+
 /// Header at the start of a node in an extent tree.
 ///
 /// An extent tree is made up of nodes. Each node may be internal or
@@ -213,6 +217,12 @@ impl Extents {
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
 
+            // Unwritten extents have been allocated, but must read as
+            // zeros. Skip them, so that they are treated as holes.
+            if ee_len > MAX_INITIALIZED_EXTENT_LEN {
+                return Ok(None);
+            }
+
             let start_block =
                 u64_from_hilo(u32::from(ee_start_hi), ee_start_low);
 
-- 
2.43.0


From e1253a92ed09e11b527ae2c2f2ad0077eb26ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 08/21] fix: reject overlapping or unsorted extents

---
 src/iters/file_blocks/extents_blocks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iters/file_blocks/extents_blocks.rs b/src/iters/file_blocks/extents_blocks.rs
index fdee4f3..f41013d 100644
--- a/src/iters/file_blocks/extents_blocks.rs
+++ b/src/iters/file_blocks/extents_blocks.rs
@@ -91,6 +91,11 @@ impl ExtentsBlocks {
                     // If there is a hole between the current block in
                     // the file and the start of this extent, get the
                     // size of that hole.
+                    // Extents must be sorted and must not overlap.
+                    if extent.block_within_file < self.block_within_file {
+                        return Err(CorruptKind::ExtentBlock(self.inode).into());
+                    }
+
                     if extent.block_within_file > self.block_within_file {
                         // OK to unwrap: just checked that
                         // `block_within_file` is greater than
-- 
2.43.0


From 6b54e962a97d90d41a5e68c1e9029cded154f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 09/21] fix: treat null indirect blocks as holes

---
 src/iters/file_blocks/block_map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iters/file_blocks/block_map.rs b/src/iters/file_blocks/block_map.rs
index c9a316b..fb38b16 100644
--- a/src/iters/file_blocks/block_map.rs
+++ b/src/iters/file_blocks/block_map.rs
@@ -191,7 +191,12 @@ struct IndirectBlockIter {
 impl IndirectBlockIter {
     fn new(fs: Ext4, block_index: u32) -> Result<Self, Ext4Error> {
         let mut block = vec![0u8; fs.0.superblock.block_size.to_usize()];
-        fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+
+        // If the block index is zero, the whole range covered by this
+        // block is a hole.
+        if block_index != 0 {
+            fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        }
 
         Ok(Self {
             block,
-- 
2.43.0


From 1df08591d81edd4293b482240a655e7f71e2ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 10/21] fix: do not panic when resolving a path with many
 components

---
 src/resolve.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 4ae6d68..44d12c7 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -70,10 +70,11 @@ pub(crate) fn resolve_path(
     // enforce a path length limit, but during path resolution the
     // length can grow quite a bit due to symlinks.
     const MAX_PATH_LEN: usize = 4096;
-    // Maximum number of iterations. This limit should never be reached
-    // in practice, this is just to guard against unknown bugs that
-    // could cause an infinite loop.
-    const MAX_ITERATIONS: usize = 1000;
+    // Maximum number of iterations. Each iteration either resolves a
+    // symlink or consumes at least one byte of the path, so this limit
+    // can never be reached. This is just to guard against unknown bugs
+    // that could cause an infinite loop.
+    const MAX_ITERATIONS: usize = (MAX_SYMLINKS + 1) * (MAX_PATH_LEN + 1);
 
     if !path.is_absolute() {
         return Err(Ext4Error::NotAbsolute);
-- 
2.43.0


From 4eeb8663cd7494f3d3f5f5ba7b8fda738740c677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 11/21] fix: do not treat unused block cache entries as cached
 block zero

---
 src/block_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block_cache.rs b/src/block_cache.rs
index c1b6b2f..6ac2fbc 100644
--- a/src/block_cache.rs
+++ b/src/block_cache.rs
@@ -103,7 +103,9 @@ impl BlockCache {
 
         let entries = vec![
             CacheEntry {
-                block_index: 0,
+                // Not a valid block index, since `num_fs_blocks` is at
+                // most `u64::MAX`.
+                block_index: FsBlockIndex::MAX,
                 data: vec![0; opts.block_size.to_usize()].into_boxed_slice(),
             };
             opts.num_entries
-- 
2.43.0


From 1e0056f83ccc55ab7df2f165574bd3c2a74d1632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 12/21] fix: apply journal revocations to earlier transactions

---
 src/journal/block_map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 95ca2a3..6a9198b 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -230,11 +230,13 @@ impl<'a> BlockMapLoader<'a> {
     fn process_commit_block(&mut self) -> Result<(), Ext4Error> {
         validate_commit_block_checksum(self.superblock, &self.block)?;
 
-        // Remove any revoked blocks from uncommitted blocks.
+        // Remove any revoked blocks, both from the uncommitted blocks and
+        // from the blocks of earlier transactions.
         for block_index in &self.revoked_blocks {
             // Don't check the `remove` return value, as a revoked block
             // wasn't necessarily reused later in the transaction.
             self.uncommitted_block_map.remove(block_index);
+            self.block_map.remove(block_index);
         }
         self.revoked_blocks.clear();
 
-- 
2.43.0


From a12f87d79f391ca270c84522bf1d445770e902d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 13/21] fix: return an error if a file is too large to allocate

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f8aceb..02c5cec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -368,12 +368,16 @@ impl Ext4 {
     /// Holes are filled with zero.
     ///
     /// Fails with `FileTooLarge` if the size of the file is too large
-    /// to fit in a [`usize`].
+    /// to fit in a [`usize`], or if there is not enough memory for it.
     fn read_inode_file(&self, inode: &Inode) -> Result<Vec<u8>, Ext4Error> {
         // Get the file size and initialize the output vector.
         let file_size_in_bytes = usize::try_from(inode.metadata.size_in_bytes)
             .map_err(|_| Ext4Error::FileTooLarge)?;
-        let mut dst = vec![0; file_size_in_bytes];
+        // The size comes from the disk, so allocation might fail.
+        let mut dst = Vec::new();
+        dst.try_reserve_exact(file_size_in_bytes)
+            .map_err(|_| Ext4Error::FileTooLarge)?;
+        dst.resize(file_size_in_bytes, 0);
 
         // Use `File` to read the data in chunks.
         let mut file = File::open_inode(self, inode.clone())?;
-- 
2.43.0


From b51508355bc83465918f6345a9cc4970d0bd5776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 14/21] fix: reject block sizes larger than the format allows

---
 src/superblock.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/superblock.rs b/src/superblock.rs
index da99256..4f07a50 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -39,6 +39,9 @@ impl Superblock {
     /// Size (in bytes) of the superblock on disk.
     pub(crate) const SIZE_IN_BYTES_ON_DISK: usize = 1024;
 
+    /// Maximum filesystem block size.
+    const MAX_BLOCK_SIZE: u32 = 65536;
+
     /// Construct `Superblock` from bytes.
     ///
     /// # Panics
@@ -78,6 +81,7 @@ impl Superblock {
         let blocks_count = u64_from_hilo(s_blocks_count_hi, s_blocks_count_lo);
 
         let block_size = BlockSize::from_superblock_value(s_log_block_size)
+            .filter(|block_size| block_size.to_u32() <= Self::MAX_BLOCK_SIZE)
             .ok_or(CorruptKind::InvalidBlockSize)?;
 
         if s_magic != 0xef53 {
-- 
2.43.0


From 3816402e5f15685ed49d1c0eee40e9c65c2af205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 15/21] fix: report errors met while finding an htree directory
 block

---
 src/dir_htree.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 8b1457c..f26afc0 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -17,7 +17,7 @@ use crate::inode::{Inode, InodeFlags, InodeIndex};
 use crate::iters::extents::Extents;
 use crate::iters::file_blocks::FileBlocks;
 use crate::path::PathBuf;
-use crate::util::{read_u16le, read_u32le, usize_from_u32};
+use crate::util::{read_u16le, read_u32le};
 use alloc::rc::Rc;
 use alloc::vec;
 
@@ -279,8 +279,15 @@ fn block_from_file_block(
         Ok(absolute_block)
     } else {
         let mut block_map = FileBlocks::new(fs.clone(), inode)?;
+        // Check each block, rather than using `nth`, so that errors are
+        // not discarded.
+        for _ in 0..relative_block {
+            block_map
+                .next()
+                .ok_or(CorruptKind::DirEntry(inode.index))??;
+        }
         block_map
-            .nth(usize_from_u32(relative_block))
+            .next()
             .ok_or(CorruptKind::DirEntry(inode.index))?
     }
 }
-- 
2.43.0


From 6ae68bf08b3794b2b7c75ddfd1171a9b9003ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 16/21] fix: treat a journal with start block zero as empty

---
 src/journal/block_map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 6a9198b..2385492 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -37,6 +37,11 @@ pub(super) fn load_block_map(
     superblock: &JournalSuperblock,
     journal_inode: &Inode,
 ) -> Result<BlockMap, Ext4Error> {
+    // If the start block is zero, the journal is empty.
+    if superblock.start_block == 0 {
+        return Ok(BlockMap::new());
+    }
+
     let mut loader = BlockMapLoader::new(fs, superblock, journal_inode)?;
 
     while let Some(block_index) = loader.journal_block_iter.next() {
-- 
2.43.0


From ed057c608cf270477f9f8ed7fb753c78aa7c1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 17/21] fix: report errors met while finding the start of the
 journal

---
 src/journal/block_map.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 2385492..6eddf5c 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -21,11 +21,9 @@ use crate::journal::revocation_block::{
     read_revocation_block_table, validate_revocation_block_checksum,
 };
 use crate::journal::superblock::JournalSuperblock;
-use crate::util::usize_from_u32;
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
-use core::iter::Skip;
 
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
@@ -91,7 +89,7 @@ struct BlockMapLoader<'a> {
 
     /// Iterator over blocks in the journal inode. At construction, the
     /// iterator is advanced to the journal start block.
-    journal_block_iter: Skip<FileBlocks>,
+    journal_block_iter: FileBlocks,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -125,11 +123,17 @@ impl<'a> BlockMapLoader<'a> {
         journal_inode: &Inode,
     ) -> Result<Self, Ext4Error> {
         // Get an iterator over the journal's block indices.
-        let journal_block_iter = FileBlocks::new(fs.clone(), journal_inode)?;
+        let mut journal_block_iter =
+            FileBlocks::new(fs.clone(), journal_inode)?;
 
-        // Skip forward to the start block.
-        let journal_block_iter =
-            journal_block_iter.skip(usize_from_u32(superblock.start_block));
+        // Advance to the start block. Check each block, rather than
+        // using `skip`, so that errors are not discarded.
+        for _ in 0..superblock.start_block {
+            let Some(block_index) = journal_block_iter.next() else {
+                break;
+            };
+            block_index?;
+        }
 
         Ok(Self {
             fs,
-- 
2.43.0


From 3689aa5262eede89b2a278ece886d2819553346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 18/21] fix: do not use the end-of-directory value as a
 directory hash

---
 src/dir_entry_hash.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dir_entry_hash.rs b/src/dir_entry_hash.rs
index 96710f5..1e539a6 100644
--- a/src/dir_entry_hash.rs
+++ b/src/dir_entry_hash.rs
@@ -109,8 +109,14 @@ impl HashAlg {
             }
         };
 
-        // Finalize the hash.
-        hash & !1
+        // Finalize the hash. The largest value is reserved to mark the
+        // end of a directory, so it is never used as a hash.
+        let hash = hash & !1;
+        if hash == 0xffff_fffe {
+            0xffff_fffc
+        } else {
+            hash
+        }
     }
 }
 
-- 
2.43.0


From cf945d37b13a033b8e92caba9233fb85f31a412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 19/21] fix: decode directory entry sizes of 64K blocks

---
 src/dir_block.rs |  7 +++++--
 src/dir_entry.rs | 25 ++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index 680d257..96e15e9 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -9,6 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
+use crate::dir_entry::decode_rec_len;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::InodeIndex;
 use crate::util::{read_u16le, read_u32le};
@@ -156,8 +157,10 @@ impl DirBlock<'_> {
 
         // Other internal nodes are identified by the first record
         // having a length equal to the whole block.
-        let first_rec_len = read_u16le(block, 4);
-        if first_rec_len == self.fs.0.superblock.block_size {
+        let block_size = self.fs.0.superblock.block_size;
+        let first_rec_len =
+            decode_rec_len(read_u16le(block, 4), block_size.to_u32());
+        if first_rec_len == block_size {
             DirBlockType::Internal
         } else {
             DirBlockType::Leaf
diff --git a/src/dir_entry.rs b/src/dir_entry.rs
index 36db391..04769ee 100644
--- a/src/dir_entry.rs
+++ b/src/dir_entry.rs
@@ -13,7 +13,7 @@ use crate::format::{BytesDisplay, format_bytes_debug};
 use crate::inode::{Inode, InodeIndex};
 use crate::metadata::Metadata;
 use crate::path::{Path, PathBuf};
-use crate::util::{read_u16le, read_u32le};
+use crate::util::{read_u16le, read_u32le, usize_from_u32};
 use alloc::rc::Rc;
 use core::error::Error;
 use core::fmt::{self, Debug, Display, Formatter};
@@ -201,6 +201,23 @@ impl TryFrom<&[u8]> for DirEntryNameBuf {
     }
 }
 
+/// Decode the size of a directory entry.
+///
+/// The size does not always fit in the `u16` field if the block size is
+/// 64K. In that case, `0` and `0xffff` both mean 64K, and otherwise the
+/// low two bits are the high bits of the size.
+pub(crate) fn decode_rec_len(rec_len: u16, block_size: u32) -> usize {
+    let rec_len = u32::from(rec_len);
+    let rec_len = if block_size < 65536 {
+        rec_len
+    } else if rec_len == 0 || rec_len == 0xffff {
+        65536
+    } else {
+        (rec_len & 0xfffc) | ((rec_len & 0x3) << 16)
+    };
+    usize_from_u32(rec_len)
+}
+
 /// Directory entry.
 #[derive(Clone)]
 pub struct DirEntry {
@@ -256,8 +273,10 @@ impl DirEntry {
         let points_to_inode = read_u32le(bytes, 0);
 
         // Get the full size of the entry.
-        let rec_len = read_u16le(bytes, 4);
-        let rec_len = usize::from(rec_len);
+        let rec_len = decode_rec_len(
+            read_u16le(bytes, 4),
+            fs.0.superblock.block_size.to_u32(),
+        );
 
         // Check that the rec_len is somewhat reasonable. Too small a
         // value could indicate the wrong data is being read. And
-- 
2.43.0


From e6335c9bf6aa45adc04a1a2647c2183083ae89b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:37 +0000
Subject: [PATCH 20/21] fix: let journal sequence numbers wrap around

Transaction numbers are 32 bits wide and continue at zero. The
transaction after number 2^32-1 and all later ones were dropped.
---
 src/error.rs             | 6 ------
 src/journal/block_map.rs | 6 ++----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index fcb1251..f1cc122 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -263,9 +263,6 @@ pub(crate) enum CorruptKind {
     /// Journal revocation block has an invalid table size.
     JournalRevocationBlockInvalidTableSize(usize),
 
-    /// Journal sequence number overflowed.
-    JournalSequenceOverflow,
-
     /// Journal has a truncated descriptor block. Either it is missing a
     /// tag with the `LAST_TAG` flag set, or the final tag does have
     /// that flag set but there are not enough bytes to read the full
@@ -451,9 +448,6 @@ impl Display for CorruptKind {
                     "journal revocation block table size is invalid: {size}"
                 )
             }
-            Self::JournalSequenceOverflow => {
-                write!(f, "journal sequence number overflowed")
-            }
             Self::JournalDescriptorBlockTruncated => {
                 write!(f, "journal descriptor block is truncated")
             }
diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 6eddf5c..e92bf18 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -253,10 +253,8 @@ impl<'a> BlockMapLoader<'a> {
         self.block_map.extend(self.uncommitted_block_map.iter());
         self.uncommitted_block_map.clear();
 
-        self.sequence = self
-            .sequence
-            .checked_add(1)
-            .ok_or(CorruptKind::JournalSequenceOverflow)?;
+        // Sequence numbers wrap around.
+        self.sequence = self.sequence.wrapping_add(1);
 
         Ok(())
     }
-- 
2.43.0


From 5f9f2c25376b3f04ff496cab6a800af118023e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:03 +0000
Subject: [PATCH 21/21] fix: accept inodes without the upper checksum half

Inodes of 128 bytes, and larger ones whose i_extra_isize leaves
i_checksum_hi out, store only the lower half of the checksum, and the
field is ordinary data in the latter. Such inodes were refused.
---
 src/inode.rs | 59 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/inode.rs b/src/inode.rs
index 15ad801..30ead37 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -117,8 +117,21 @@ pub(crate) struct Inode {
 impl Inode {
     const INLINE_DATA_LEN: usize = 60;
     const L_I_CHECKSUM_LO_OFFSET: usize = 0x74 + 0x8;
+    const I_EXTRA_ISIZE_OFFSET: usize = 0x80;
     const I_CHECKSUM_HI_OFFSET: usize = 0x82;
 
+    /// Check whether the inode in `data` includes the i_checksum_hi
+    /// field. An inode of 128 bytes does not, nor does a larger one whose
+    /// i_extra_isize leaves the field out.
+    ///
+    /// # Preconditions
+    ///
+    /// `data` must be at least 128 bytes.
+    fn has_checksum_hi(data: &[u8]) -> bool {
+        data.len() >= Self::I_CHECKSUM_HI_OFFSET + 2
+            && read_u16le(data, Self::I_EXTRA_ISIZE_OFFSET) >= 4
+    }
+
     /// Load an inode from `bytes`.
     ///
     /// If successful, returns a tuple containing the inode and its
@@ -137,18 +150,6 @@ impl Inode {
             .into());
         }
 
-        // If metadata checksums are enabled, the inode must be big
-        // enough to include the checksum fields.
-        if ext4.has_metadata_checksums()
-            && data.len() < (Self::I_CHECKSUM_HI_OFFSET + 2)
-        {
-            return Err(CorruptKind::InodeTruncated {
-                inode: index,
-                size: data.len(),
-            }
-            .into());
-        }
-
         let i_mode = read_u16le(data, 0x0);
         let i_uid = read_u16le(data, 0x2);
         let i_size_lo = read_u32le(data, 0x4);
@@ -164,7 +165,11 @@ impl Inode {
         {
             (
                 read_u16le(data, Self::L_I_CHECKSUM_LO_OFFSET),
-                read_u16le(data, Self::I_CHECKSUM_HI_OFFSET),
+                if Self::has_checksum_hi(data) {
+                    read_u16le(data, Self::I_CHECKSUM_HI_OFFSET)
+                } else {
+                    0
+                },
             )
         } else {
             // If metadata checksums aren't enabled then these values
@@ -238,19 +243,27 @@ impl Inode {
             // Zero'd field.
             checksum.update_u16_le(0);
 
-            // Up to the i_checksum_hi field.
-            checksum.update(
-                &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
-                    ..Self::I_CHECKSUM_HI_OFFSET],
-            );
+            let actual_checksum = if Self::has_checksum_hi(&data) {
+                // Up to the i_checksum_hi field.
+                checksum.update(
+                    &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
+                        ..Self::I_CHECKSUM_HI_OFFSET],
+                );
 
-            // Zero'd field.
-            checksum.update_u16_le(0);
+                // Zero'd field.
+                checksum.update_u16_le(0);
+
+                // Rest of the inode.
+                checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
 
-            // Rest of the inode.
-            checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
+                checksum.finalize()
+            } else {
+                // Rest of the inode. Only the lower half of the checksum
+                // is stored.
+                checksum.update(&data[Self::L_I_CHECKSUM_LO_OFFSET + 2..]);
 
-            let actual_checksum = checksum.finalize();
+                checksum.finalize() & 0xffff
+            };
             if actual_checksum != expected_checksum {
                 return Err(CorruptKind::InodeChecksum(inode.index).into());
             }
-- 
2.43.0

