From fef313d7cf26f474279aea4f9d6a8d1d656c6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 01/28] fix: read unwritten extents as zeros

An extent with a length field over 32768 is allocated but not yet
written. Its blocks were returned as file data (with the wrong number
of blocks) rather than zeros.
---
 src/iters/extents.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 4236c8a..443a371 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -19,6 +19,10 @@ use alloc::vec::Vec;
 /// entry).
 const ENTRY_SIZE_IN_BYTES: usize = 12;
 
+/// Maximum value of an extent's length field for an initialized extent.
+/// Larger values indicate an unwritten extent.
+const MAX_INITIALIZED_LEN: u16 = 32768;
+
 /// Header at the start of a node in an extent tree.
 ///
 /// An extent tree is made up of nodes. Each node may be internal or
@@ -213,6 +217,14 @@ impl Extents {
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
 
+            // A length over `MAX_INITIALIZED_LEN` marks an extent that
+            // is allocated but not yet written. Its blocks contain
+            // stale data; the file reads as zeros there, same as in a
+            // hole.
+            if ee_len > MAX_INITIALIZED_LEN {
+                return Ok(None);
+            }
+
             let start_block =
                 u64_from_hilo(u32::from(ee_start_hi), ee_start_low);
 
-- 
2.43.0


From e0c717146d9a683dc628d7b8c002d2f0c75fbe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 02/28] fix: allow holes at all levels of a block map

A zero index in place of an indirect block means that none of the blocks
below it are allocated. It was treated as block zero, which gives an
error.
---
 src/iters/file_blocks/block_map.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iters/file_blocks/block_map.rs b/src/iters/file_blocks/block_map.rs
index c9a316b..588ede6 100644
--- a/src/iters/file_blocks/block_map.rs
+++ b/src/iters/file_blocks/block_map.rs
@@ -191,7 +191,11 @@ struct IndirectBlockIter {
 impl IndirectBlockIter {
     fn new(fs: Ext4, block_index: u32) -> Result<Self, Ext4Error> {
         let mut block = vec![0u8; fs.0.superblock.block_size.to_usize()];
-        fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        // A block index of zero means that everything below this point
+        // in the block map is a hole, so leave the block zeroed.
+        if block_index != 0 {
+            fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        }
 
         Ok(Self {
             block,
-- 
2.43.0


From dfc09370b433d2471688d6bbf505de8905a87ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 03/28] fix: reject malformed extent trees

The depth of an extent tree node was not compared with that of its
parent, and the order of entries was not checked. An extent tree that
points back at itself, or at the same node many times, led to unbounded
memory use or practically endless iteration.
---
 src/error.rs         |  6 ++++++
 src/iters/extents.rs | 49 +++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index b5efa63..cb2e27e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -323,6 +323,9 @@ pub(crate) enum CorruptKind {
     /// An extent points to an invalid block.
     ExtentBlock(InodeIndex),
 
+    /// The entries of an extent tree are out of order or overlap.
+    ExtentOrder(InodeIndex),
+
     /// An extent node's size exceeds the block size.
     ExtentNodeSize(InodeIndex),
 
@@ -509,6 +512,9 @@ impl Display for CorruptKind {
             Self::ExtentBlock(inode) => {
                 write!(f, "extent in inode {inode} points to an invalid block")
             }
+            Self::ExtentOrder(inode) => {
+                write!(f, "extents in inode {inode} are out of order")
+            }
             Self::ExtentNodeSize(inode) => {
                 write!(
                     f,
diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 443a371..af2cf85 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -43,6 +43,17 @@ struct NodeHeader {
     depth: u16,
 }
 
+/// Get the number of blocks in an extent from the raw value of its
+/// length field.
+fn extent_len(ee_len: u16) -> u16 {
+    // OK to unwrap: just checked that the subtraction can't underflow.
+    if ee_len > MAX_INITIALIZED_LEN {
+        ee_len.checked_sub(MAX_INITIALIZED_LEN).unwrap()
+    } else {
+        ee_len
+    }
+}
+
 /// Returns `(n + 1) * ENTRY_SIZE_IN_BYTES`.
 ///
 /// The maximum value this returns is 786432.
@@ -59,6 +70,9 @@ fn add_one_mul_entry_size(n: u16) -> usize {
 }
 
 impl NodeHeader {
+    /// Maximum depth of a node.
+    const MAX_DEPTH: usize = 5;
+
     /// Size of the node, including the header.
     fn node_size_in_bytes(&self) -> usize {
         add_one_mul_entry_size(self.num_entries)
@@ -89,7 +103,7 @@ impl NodeHeader {
             return Err(CorruptKind::ExtentMagic(inode).into());
         }
 
-        if eh_depth > 5 {
+        if usize::from(eh_depth) > Self::MAX_DEPTH {
             return Err(CorruptKind::ExtentDepth(inode).into());
         }
 
@@ -159,6 +173,10 @@ pub(crate) struct Extents {
     to_visit: Vec<ToVisitItem>,
     checksum_base: Checksum,
     is_done: bool,
+
+    /// For each level of the tree (indexed by depth), the lowest value
+    /// allowed for the first block of the next entry.
+    min_block: [u64; NodeHeader::MAX_DEPTH + 1],
 }
 
 impl Extents {
@@ -172,6 +190,7 @@ impl Extents {
             )?],
             checksum_base: inode.checksum_base.clone(),
             is_done: false,
+            min_block: [0; NodeHeader::MAX_DEPTH + 1],
         })
     }
 
@@ -211,6 +230,28 @@ impl Extents {
             return Ok(None);
         };
 
+        // Both types of entry start with the first block within the file
+        // that the entry covers. At each level of the tree the entries
+        // must be in order, and extents must not overlap. This also
+        // ensures that a node cannot be visited more than once.
+        //
+        // OK to unwrap: the maximum depth is five (checked in
+        // `NodeHeader::from_bytes`).
+        let min_block =
+            self.min_block.get_mut(usize::from(item.depth)).unwrap();
+        let first_block = u64::from(read_u32le(entry, 0));
+        if first_block < *min_block {
+            return Err(CorruptKind::ExtentOrder(self.inode).into());
+        }
+        let num_blocks = if item.depth == 0 {
+            extent_len(read_u16le(entry, 4)).max(1)
+        } else {
+            1
+        };
+        // OK to unwrap: both values fit in a `u32`, so the sum fits in
+        // a `u64`.
+        *min_block = first_block.checked_add(u64::from(num_blocks)).unwrap();
+
         if item.depth == 0 {
             let ee_block = read_u32le(entry, 0);
             let ee_len = read_u16le(entry, 4);
@@ -246,6 +287,12 @@ impl Extents {
             let child_header =
                 NodeHeader::from_bytes(&child_header, self.inode)?;
 
+            // The depth must decrease by one at each level. This
+            // ensures that the tree does not contain a cycle.
+            if child_header.depth.checked_add(1) != Some(item.depth) {
+                return Err(CorruptKind::ExtentDepth(self.inode).into());
+            }
+
             // The checksum is written in the four bytes directly after
             // the node.
             let checksum_offset = child_header.checksum_offset();
-- 
2.43.0


From dfdfdd4f892f3e6dc789efcec36125c4e721d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 04/28] fix: don't panic or lose errors when reading an open
 file

Once the block iterator of a file has returned an error it yields
nothing more, so a further read panicked. Errors while seeking were
ignored, with the same result. Seeking far beyond the end of the file
took practically forever. A file that is larger than its block map
allows also panicked.
---
 src/file.rs | 53 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index c9e6b7c..f9ae5b0 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,7 @@
 
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::Ext4Error;
+use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::Inode;
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
@@ -35,6 +35,11 @@ pub struct File {
     /// If `None`, either the next block needs to be fetched from the
     /// `file_blocks` iterator, or the end of the file has been reached.
     block_index: Option<FsBlockIndex>,
+
+    /// If true, `file_blocks` does not match `position` and must be
+    /// reset before it is used. This is the case after seeking, and
+    /// after an error.
+    needs_reset: bool,
 }
 
 impl File {
@@ -65,9 +70,39 @@ impl File {
             file_blocks: FileBlocks::new(fs.clone(), &inode)?,
             inode,
             block_index: None,
+            needs_reset: false,
         })
     }
 
+    /// Get the block index to read from when starting a new block. The
+    /// current `position` must be less than the file size.
+    fn next_block_index(&mut self) -> Result<FsBlockIndex, Ext4Error> {
+        // The number of blocks in the file comes from the file size, so
+        // if the iterator ends early then the file is larger than the
+        // maximum size of a block map.
+        let too_many_blocks = CorruptKind::TooManyBlocksInFile;
+
+        if self.needs_reset {
+            self.file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
+
+            // Advance the block iterator by the number of whole blocks
+            // in `position`.
+            let num_blocks =
+                self.position / self.fs.0.superblock.block_size.to_nz_u64();
+            for _ in 0..num_blocks {
+                self.file_blocks.next().ok_or(too_many_blocks.clone())??;
+            }
+        }
+
+        // Iteration ends after an error, so reset the iterator if another
+        // read is attempted.
+        self.needs_reset = true;
+        let block_index = self.file_blocks.next().ok_or(too_many_blocks)??;
+        self.needs_reset = false;
+
+        Ok(block_index)
+    }
+
     /// Get the file metadata.
     #[must_use]
     pub fn metadata(&self) -> &Metadata {
@@ -126,10 +161,7 @@ impl File {
         let block_index = if let Some(block_index) = self.block_index {
             block_index
         } else {
-            // OK to unwrap: already checked that the position is not at
-            // the end of the file, so there must be at least one more
-            // block to read.
-            let block_index = self.file_blocks.next().unwrap()?;
+            let block_index = self.next_block_index()?;
 
             self.block_index = Some(block_index);
 
@@ -206,17 +238,10 @@ impl File {
     ///
     /// Seeking past the end of the file is allowed.
     pub fn seek_to(&mut self, position: u64) -> Result<(), Ext4Error> {
-        // Reset iteration.
-        self.file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
+        // Reset iteration. This is done as part of the next read.
+        self.needs_reset = true;
         self.block_index = None;
 
-        // Advance the block iterator by the number of whole blocks in
-        // `position`.
-        let num_blocks = position / self.fs.0.superblock.block_size.to_nz_u64();
-        for _ in 0..num_blocks {
-            self.file_blocks.next();
-        }
-
         self.position = position;
 
         Ok(())
-- 
2.43.0


From 7b51ee9495d06a34a7fb44704e3721e1300f44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 05/28] fix: report a file too large for memory as an error

Reading a file or symlink whose size (from the inode) cannot be
allocated aborted the process rather than returning FileTooLarge.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f8aceb..2a18397 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -373,7 +373,10 @@ impl Ext4 {
         // Get the file size and initialize the output vector.
         let file_size_in_bytes = usize::try_from(inode.metadata.size_in_bytes)
             .map_err(|_| Ext4Error::FileTooLarge)?;
-        let mut dst = vec![0; file_size_in_bytes];
+        let mut dst = Vec::new();
+        dst.try_reserve_exact(file_size_in_bytes)
+            .map_err(|_| Ext4Error::FileTooLarge)?;
+        dst.resize(file_size_in_bytes, 0);
 
         // Use `File` to read the data in chunks.
         let mut file = File::open_inode(self, inode.clone())?;
-- 
2.43.0


From d18a5880e4b54169375e20fffc93160893cd834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 06/28] fix: don't panic on paths with many components

A path of up to 4096 bytes can have over 1000 components, such as
'/./././...', so the limit on the number of iterations was reachable.
---
 src/resolve.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 4ae6d68..bc8c276 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -55,7 +55,7 @@ pub(crate) enum FollowSymlinks {
 ///
 /// # Panics
 ///
-/// This function panics if path resolution takes over 1000
+/// This function panics if path resolution takes over `MAX_ITERATIONS`
 /// iterations. This should never occur in practice due to other
 /// restrictions, this is just a hedge against unforeseen bugs.
 pub(crate) fn resolve_path(
@@ -73,7 +73,11 @@ pub(crate) fn resolve_path(
     // Maximum number of iterations. This limit should never be reached
     // in practice, this is just to guard against unknown bugs that
     // could cause an infinite loop.
-    const MAX_ITERATIONS: usize = 1000;
+    //
+    // Each iteration consumes at least one byte of the path. The path
+    // starts with at most `MAX_PATH_LEN` bytes, and each symlink adds at
+    // most that number of bytes.
+    const MAX_ITERATIONS: usize = (MAX_SYMLINKS + 1) * MAX_PATH_LEN;
 
     if !path.is_absolute() {
         return Err(Ext4Error::NotAbsolute);
-- 
2.43.0


From 3828a73611ce1f92a43dca0f2a6ff2caee51bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 07/28] fix: reject block sizes over 64KiB

The superblock's block size was accepted up to 2GiB. The block cache
allocates several blocks up front, so loading a corrupt superblock
aborted the process.
---
 src/superblock.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/superblock.rs b/src/superblock.rs
index da99256..e5ec619 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -77,6 +77,11 @@ impl Superblock {
 
         let blocks_count = u64_from_hilo(s_blocks_count_hi, s_blocks_count_lo);
 
+        // Ext4 allows a block size of at most 64KiB.
+        const MAX_LOG_BLOCK_SIZE: u32 = 6;
+        if s_log_block_size > MAX_LOG_BLOCK_SIZE {
+            return Err(CorruptKind::InvalidBlockSize.into());
+        }
         let block_size = BlockSize::from_superblock_value(s_log_block_size)
             .ok_or(CorruptKind::InvalidBlockSize)?;
 
-- 
2.43.0


From 4d84737d14fa847e2eb9b72b912090277ed602c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 08/28] fix: don't allocate based on an unchecked block group
 count

The number of block groups is derived from fields of the superblock and
can be up to 2^32. Loading a corrupt superblock could abort the process.
---
 src/block_group.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index 47be0a7..54965d4 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -12,7 +12,7 @@ use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::features::{IncompatibleFeatures, ReadOnlyCompatibleFeatures};
 use crate::superblock::Superblock;
-use crate::util::{read_u16le, read_u32le, u64_from_hilo, usize_from_u32};
+use crate::util::{read_u16le, read_u32le, u64_from_hilo};
 use alloc::vec;
 use alloc::vec::Vec;
 
@@ -130,8 +130,9 @@ impl BlockGroupDescriptor {
         sb: &Superblock,
         reader: &mut dyn Ext4Read,
     ) -> Result<Vec<Self>, Ext4Error> {
-        let mut block_group_descriptors =
-            Vec::with_capacity(usize_from_u32(sb.num_block_groups));
+        // Don't reserve space based on `num_block_groups`. If that value
+        // is wrong, reading will fail long before reaching it.
+        let mut block_group_descriptors = Vec::new();
 
         for bgd_index in 0..sb.num_block_groups {
             let bgd = Self::read(sb, reader, bgd_index)?;
-- 
2.43.0


From d49a200d705aa4f9db7d4729674bbe2ccbd72e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 09/28] fix: reject too-small block group descriptors

With the 64-bit feature, a descriptor size below 44 bytes led to a panic
when decoding descriptors. The format requires at least 64 bytes.
---
 src/error.rs      |  6 ++++++
 src/superblock.rs | 20 ++++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index cb2e27e..0d4843f 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -218,6 +218,9 @@ pub(crate) enum CorruptKind {
         u32,
     ),
 
+    /// Block group descriptor size is invalid.
+    BlockGroupDescriptorSize(u16),
+
     /// Invalid block group descriptor.
     BlockGroupDescriptor(
         /// Block group number.
@@ -406,6 +409,9 @@ impl Display for CorruptKind {
             Self::FirstDataBlock(block) => {
                 write!(f, "invalid first data block: {block}")
             }
+            Self::BlockGroupDescriptorSize(size) => {
+                write!(f, "invalid block group descriptor size: {size}")
+            }
             Self::BlockGroupDescriptor(block_group_num) => {
                 write!(f, "block group descriptor {block_group_num} is invalid")
             }
diff --git a/src/superblock.rs b/src/superblock.rs
index e5ec619..b346195 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -116,12 +116,20 @@ impl Superblock {
         let inodes_per_block_group = NonZero::new(s_inodes_per_group)
             .ok_or(CorruptKind::InodesPerBlockGroup)?;
 
-        let block_group_descriptor_size =
-            if incompatible_features.contains(IncompatibleFeatures::IS_64BIT) {
-                s_desc_size
-            } else {
-                32
-            };
+        let block_group_descriptor_size = if incompatible_features
+            .contains(IncompatibleFeatures::IS_64BIT)
+        {
+            // Descriptors are at least 64 bytes if the 64-bit
+            // feature is enabled.
+            if s_desc_size < 64 {
+                return Err(
+                    CorruptKind::BlockGroupDescriptorSize(s_desc_size).into()
+                );
+            }
+            s_desc_size
+        } else {
+            32
+        };
 
         // Inodes are not allowed to exceed the block size.
         if s_inode_size > block_size {
-- 
2.43.0


From 189ed53f6aafa710cfcbf3e49013be37571b17f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 10/28] fix: don't panic on a corrupt htree entry count

The number of entries in an htree node is needed to verify the checksum
of that node, so it can't be trusted yet at that point. A large value
led to a panic.
---
 src/dir_block.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index b7138ee..c476e16 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -68,7 +68,7 @@ impl DirBlock<'_> {
         let actual_checksum = if block_type == DirBlockType::Leaf {
             self.calc_leaf_checksum(block)
         } else {
-            self.calc_internal_checksum(block, block_type)
+            self.calc_internal_checksum(block, block_type)?
         };
 
         if actual_checksum.finalize() == expected_checksum {
@@ -105,7 +105,7 @@ impl DirBlock<'_> {
         &self,
         block: &[u8],
         block_type: DirBlockType,
-    ) -> Checksum {
+    ) -> Result<Checksum, Ext4Error> {
         let tail_entry_size = 8;
 
         // OK to unwrap: minimum block size is 1024.
@@ -130,12 +130,17 @@ impl DirBlock<'_> {
             .checked_add(usize::from(count).checked_mul(8).unwrap())
             .unwrap();
 
+        // The entries must not extend past the tail.
+        if num_bytes > tail_entry_offset {
+            return Err(CorruptKind::DirBlockChecksum(self.dir_inode).into());
+        }
+
         let mut checksum = self.checksum_base.clone();
         checksum.update(&block[..num_bytes]);
         checksum.update_u32_le(read_u32le(block, tail_entry_offset));
         checksum.update_u32_le(0);
 
-        checksum
+        Ok(checksum)
     }
 
     fn get_block_type(&self, block: &[u8]) -> DirBlockType {
-- 
2.43.0


From 5622c78cb19dbf3d2bfb9917283c4c81fbcb1af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 11/28] fix: decode directory record lengths with 64KiB blocks

With 64KiB blocks, an entry that fills the whole block has a record
length that does not fit in the 16-bit field. Such entries made empty
directory blocks look corrupt, and htree internal nodes were treated as
leaves.
---
 src/dir_block.rs |  6 ++++--
 src/dir_entry.rs | 21 +++++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index c476e16..5511cb0 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -9,6 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
+use crate::dir_entry::decode_rec_len;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::InodeIndex;
 use crate::util::{read_u16le, read_u32le};
@@ -156,8 +157,9 @@ impl DirBlock<'_> {
 
         // Other internal nodes are identified by the first record
         // having a length equal to the whole block.
-        let first_rec_len = read_u16le(block, 4);
-        if first_rec_len == self.fs.0.superblock.block_size {
+        let block_size = self.fs.0.superblock.block_size;
+        let first_rec_len = decode_rec_len(read_u16le(block, 4), block_size);
+        if first_rec_len == block_size {
             DirBlockType::Internal
         } else {
             DirBlockType::Leaf
diff --git a/src/dir_entry.rs b/src/dir_entry.rs
index 36db391..b4b24d7 100644
--- a/src/dir_entry.rs
+++ b/src/dir_entry.rs
@@ -7,6 +7,7 @@
 // except according to those terms.
 
 use crate::Ext4;
+use crate::block_size::BlockSize;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::file_type::FileType;
 use crate::format::{BytesDisplay, format_bytes_debug};
@@ -201,6 +202,22 @@ impl TryFrom<&[u8]> for DirEntryNameBuf {
     }
 }
 
+/// Decode the record length field of a directory entry.
+///
+/// If the block size is 64KiB, the length of an entry that takes up the
+/// whole block does not fit in the field. It is stored as either 0 or
+/// `u16::MAX` (which is not otherwise a valid length, since lengths are a
+/// multiple of four).
+pub(crate) fn decode_rec_len(rec_len: u16, block_size: BlockSize) -> usize {
+    const MAX_BLOCK_SIZE: u32 = 65536;
+
+    if block_size == MAX_BLOCK_SIZE && (rec_len == 0 || rec_len == u16::MAX) {
+        block_size.to_usize()
+    } else {
+        usize::from(rec_len)
+    }
+}
+
 /// Directory entry.
 #[derive(Clone)]
 pub struct DirEntry {
@@ -256,8 +273,8 @@ impl DirEntry {
         let points_to_inode = read_u32le(bytes, 0);
 
         // Get the full size of the entry.
-        let rec_len = read_u16le(bytes, 4);
-        let rec_len = usize::from(rec_len);
+        let rec_len =
+            decode_rec_len(read_u16le(bytes, 4), fs.0.superblock.block_size);
 
         // Check that the rec_len is somewhat reasonable. Too small a
         // value could indicate the wrong data is being read. And
-- 
2.43.0


From c3c5678c0445a694b56c18be3a387b9b0bc25f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 12/28] fix: support unsigned htree hashes

Filesystems created on architectures where `char` is unsigned have a
flag set in the superblock, and the hashes of names with non-ASCII bytes
are different. Lookups of such names failed with `NotFound`.
---
 src/dir_entry_hash.rs | 44 ++++++++++++++++++++++++++++++++++++-------
 src/dir_htree.rs      |  7 ++++++-
 src/lib.rs            |  6 ++++++
 src/superblock.rs     | 17 +++++++++++++++++
 4 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/src/dir_entry_hash.rs b/src/dir_entry_hash.rs
index 96710f5..4e7cfbe 100644
--- a/src/dir_entry_hash.rs
+++ b/src/dir_entry_hash.rs
@@ -67,10 +67,27 @@ impl HashAlg {
     /// The `seed` value comes from the `s_hash_seed` field of the
     /// superblock. If the `seed` is all zeroes, it's replaced with a
     /// standard default seed.
-    pub(crate) fn hash(
+    ///
+    /// Bytes of `name` are treated as signed.
+    pub(crate) fn hash(&self, name: DirEntryName<'_>, seed: &[u32; 4]) -> u32 {
+        self.hash_with(name, seed, sign_extend_byte_to_u32)
+    }
+
+    /// Same as [`HashAlg::hash`], but with the bytes of `name` treated
+    /// as unsigned.
+    pub(crate) fn hash_unsigned(
+        &self,
+        name: DirEntryName<'_>,
+        seed: &[u32; 4],
+    ) -> u32 {
+        self.hash_with(name, seed, u32::from)
+    }
+
+    fn hash_with(
         &self,
         name: DirEntryName<'_>,
         mut seed: &[u32; 4],
+        byte_to_u32: fn(u8) -> u32,
     ) -> u32 {
         // Replace all-zero seed with a standard default seed.
         if seed == &[0; 4] {
@@ -90,7 +107,7 @@ impl HashAlg {
                 for chunk in
                     name.as_ref().chunks(mem::size_of::<HashBlock<8>>())
                 {
-                    let inp = create_hash_block(chunk);
+                    let inp = create_hash_block_with(chunk, byte_to_u32);
                     md4_half(&mut state, &inp);
                 }
 
@@ -101,7 +118,7 @@ impl HashAlg {
                 for chunk in
                     name.as_ref().chunks(mem::size_of::<HashBlock<4>>())
                 {
-                    let inp = create_hash_block(chunk);
+                    let inp = create_hash_block_with(chunk, byte_to_u32);
                     tea(&mut state, &inp);
                 }
 
@@ -213,8 +230,14 @@ fn sign_extend_byte_to_u32(byte: u8) -> u32 {
     sbyte as u32
 }
 
-/// Create the 32-byte block of data that will be hashed.
-fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
+/// Create the block of data that will be hashed.
+///
+/// The `byte_to_u32` function is used to extend each byte of `src` to a
+/// `u32`.
+fn create_hash_block_with<const N: usize>(
+    mut src: &[u8],
+    byte_to_u32: fn(u8) -> u32,
+) -> HashBlock<N> {
     let mut dst = [Wu32::default(); N];
 
     // Get padding value. If `src` is smaller than the block size (4 * N
@@ -228,8 +251,8 @@ fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
         // Process up to four bytes of `src`.
         for _ in 0..4 {
             if let Some(src_byte) = src.first() {
-                // Sign extend the byte into a `u32`.
-                let src_u32 = sign_extend_byte_to_u32(*src_byte);
+                // Extend the byte into a `u32`.
+                let src_u32 = byte_to_u32(*src_byte);
                 elem = src_u32.wrapping_add(elem << 8);
 
                 src = &src[1..];
@@ -241,6 +264,13 @@ fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
     dst
 }
 
+/// Create the 32-byte block of data that will be hashed, treating the
+/// bytes of `src` as signed.
+#[cfg(test)]
+fn create_hash_block<const N: usize>(src: &[u8]) -> HashBlock<N> {
+    create_hash_block_with(src, sign_extend_byte_to_u32)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 8b1457c..5cc569b 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -307,7 +307,12 @@ fn find_leaf_node(
     // Get the node structure from the root block.
     let root_node = InternalNode::from_root_block(block, inode.index)?;
 
-    let hash = hash_alg.hash(name, &fs.0.superblock.htree_hash_seed);
+    let hash_seed = &fs.0.superblock.htree_hash_seed;
+    let hash = if fs.0.htree_hash_is_unsigned {
+        hash_alg.hash_unsigned(name, hash_seed)
+    } else {
+        hash_alg.hash(name, hash_seed)
+    };
     let mut child_block_relative = root_node
         .lookup_block_by_hash(hash)
         .ok_or(CorruptKind::DirEntry(inode.index))?;
diff --git a/src/lib.rs b/src/lib.rs
index 2a18397..2904d85 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -171,6 +171,11 @@ pub use uuid::Uuid;
 
 struct Ext4Inner {
     superblock: Superblock,
+
+    /// Whether directory entry hashes treat the bytes of names as
+    /// unsigned.
+    htree_hash_is_unsigned: bool,
+
     block_group_descriptors: Vec<BlockGroupDescriptor>,
     journal: Journal,
     block_cache: RefCell<BlockCache>,
@@ -221,6 +226,7 @@ impl Ext4 {
             )?,
             reader: RefCell::new(reader),
             superblock,
+            htree_hash_is_unsigned: Superblock::has_unsigned_htree_hash(&data),
             // Initialize with an empty journal, because loading the
             // journal requires a valid `Ext4` object.
             journal: Journal::empty(),
diff --git a/src/superblock.rs b/src/superblock.rs
index b346195..56e5d42 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -39,6 +39,23 @@ impl Superblock {
     /// Size (in bytes) of the superblock on disk.
     pub(crate) const SIZE_IN_BYTES_ON_DISK: usize = 1024;
 
+    /// Check if directory entry hashes treat the bytes of names as
+    /// unsigned.
+    ///
+    /// Filesystems created on architectures where C's `char` type is
+    /// unsigned have this flag set.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the length of `bytes` is less than
+    /// [`Self::SIZE_IN_BYTES_ON_DISK`].
+    pub(crate) fn has_unsigned_htree_hash(bytes: &[u8]) -> bool {
+        const UNSIGNED_HASH: u32 = 0x2;
+
+        let s_flags = read_u32le(bytes, 0x160);
+        s_flags & UNSIGNED_HASH != 0
+    }
+
     /// Construct `Superblock` from bytes.
     ///
     /// # Panics
-- 
2.43.0


From 8b03b4922095a2600547f59abfa0b1c2e99e2d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 13/28] fix: handle htree hash collisions that span blocks

When names with the same hash do not all fit in one leaf block, the rest
of them are in the next leaf block, whose entry in the internal node is
marked as a continuation. Those names could not be found.
---
 src/dir_htree.rs | 174 +++++++++++++++++++++++++++++++----------------
 1 file changed, 117 insertions(+), 57 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 5cc569b..7b81116 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -20,6 +20,7 @@ use crate::path::PathBuf;
 use crate::util::{read_u16le, read_u32le, usize_from_u32};
 use alloc::rc::Rc;
 use alloc::vec;
+use alloc::vec::Vec;
 
 type DirHash = u32;
 
@@ -152,12 +153,9 @@ impl<'a> InternalNode<'a> {
         self.entries.len() / Self::ENTRY_SIZE
     }
 
-    /// Perform a binary search to find the child block index for the
+    /// Perform a binary search to find the index of the entry for the
     /// `lookup_hash`.
-    fn lookup_block_by_hash(
-        &self,
-        lookup_hash: DirHash,
-    ) -> Option<FileBlockIndex> {
+    fn lookup_index_by_hash(&self, lookup_hash: DirHash) -> Option<usize> {
         // Left/right entry index.
         let mut left = 0;
         let mut right = self.num_entries().checked_sub(1)?;
@@ -172,8 +170,43 @@ impl<'a> InternalNode<'a> {
             }
         }
 
-        let index = left.checked_sub(1)?;
-        Some(self.get_entry(index).1)
+        left.checked_sub(1)
+    }
+
+    /// Get the indices of all child blocks that might contain the
+    /// `lookup_hash`. The blocks are in the same order as the entries.
+    ///
+    /// Usually there is only one such block. However, if names with the
+    /// same hash did not all fit in one block, the entry for the next
+    /// block has the same hash with the lowest bit set to indicate that
+    /// it is a continuation. (The lowest bit of the hash of a name is
+    /// always zero.)
+    fn lookup_blocks_by_hash(
+        &self,
+        lookup_hash: DirHash,
+    ) -> Option<Vec<FileBlockIndex>> {
+        let first = self.lookup_index_by_hash(lookup_hash)?;
+        let mut blocks = vec![self.get_entry(first).1];
+
+        for index in first.checked_add(1)?..self.num_entries() {
+            let (hash, block) = self.get_entry(index);
+            if hash & !1 != lookup_hash {
+                break;
+            }
+            blocks.push(block);
+        }
+
+        Some(blocks)
+    }
+
+    /// Perform a binary search to find the child block index for the
+    /// `lookup_hash`.
+    #[cfg(test)]
+    fn lookup_block_by_hash(
+        &self,
+        lookup_hash: DirHash,
+    ) -> Option<FileBlockIndex> {
+        Some(self.get_entry(self.lookup_index_by_hash(lookup_hash)?).1)
     }
 }
 
@@ -285,16 +318,20 @@ fn block_from_file_block(
     }
 }
 
-/// Traverse the htree to find the leaf node that might contain `name`.
+/// Traverse the htree to find the entry for `name`.
+///
+/// `block` must contain the root node's block data. It will be
+/// overwritten with the data of other blocks in the tree.
 ///
-/// On success, `block` will contain the leaf node's directory block
-/// data.
-fn find_leaf_node(
+/// Returns [`Ext4Error::NotFound`] if the entry doesn't exist.
+fn find_entry(
     fs: &Ext4,
     inode: &Inode,
     name: DirEntryName<'_>,
     block: &mut [u8],
-) -> Result<(), Ext4Error> {
+) -> Result<DirEntry, Ext4Error> {
+    let corrupt = || Ext4Error::from(CorruptKind::DirEntry(inode.index));
+
     // Read the htree's hash type from the root block.
     let hash_alg = HashAlg::from_u8(block[0x1c])?;
 
@@ -313,15 +350,29 @@ fn find_leaf_node(
     } else {
         hash_alg.hash(name, hash_seed)
     };
-    let mut child_block_relative = root_node
-        .lookup_block_by_hash(hash)
-        .ok_or(CorruptKind::DirEntry(inode.index))?;
-
-    // Descend through the tree one level at a time. The first iteration
-    // of the loop goes from the root node to a child. The last
-    // iteration (which may also be the first iteration) will read the
-    // leaf node data into `block`.
-    for level in 0..=depth {
+
+    // Blocks that still need to be checked, along with the level of
+    // each block. The next block to check is at the end.
+    //
+    // Except when there are hash collisions there is never more than
+    // one block in here.
+    let mut pending: Vec<(u8, FileBlockIndex)> = Vec::new();
+    let push_children = |pending: &mut Vec<_>,
+                         node: InternalNode<'_>,
+                         level| {
+        let children = node.lookup_blocks_by_hash(hash).ok_or_else(corrupt)?;
+        pending.extend(children.into_iter().rev().map(|child| (level, child)));
+        Ok::<(), Ext4Error>(())
+    };
+    push_children(&mut pending, root_node, 0)?;
+
+    // Each block of the directory is in the tree at most once. Use that
+    // to limit the number of blocks checked if the tree is corrupt.
+    let mut max_blocks = inode.file_size_in_blocks();
+
+    while let Some((level, child_block_relative)) = pending.pop() {
+        max_blocks = max_blocks.checked_sub(1).ok_or_else(corrupt)?;
+
         // Get the absolute block index and read the block's data.
         let block_index =
             block_from_file_block(fs, inode, child_block_relative)?;
@@ -336,18 +387,56 @@ fn find_leaf_node(
         dir_block.read(block)?;
 
         // If the block is an internal node, find the next child
-        // block. Otherwise, we've reached a leaf node and there's
-        // nothing more to do.
+        // blocks. Otherwise, it's a leaf node that might contain the
+        // entry.
         if level != depth {
             let inner_node =
                 InternalNode::from_non_root_block(block, inode.index)?;
-            child_block_relative = inner_node
-                .lookup_block_by_hash(hash)
-                .ok_or(CorruptKind::DirEntry(inode.index))?;
+            // OK to unwrap: `level` is less than `depth`.
+            let child_level = level.checked_add(1).unwrap();
+            push_children(&mut pending, inner_node, child_level)?;
+        } else if let Some(entry) = find_entry_in_leaf(fs, inode, name, block)?
+        {
+            return Ok(entry);
         }
     }
 
-    Ok(())
+    Err(Ext4Error::NotFound)
+}
+
+/// Do a linear search through the leaf `block` for the entry matching
+/// `name`.
+fn find_entry_in_leaf(
+    fs: &Ext4,
+    inode: &Inode,
+    name: DirEntryName<'_>,
+    block: &[u8],
+) -> Result<Option<DirEntry>, Ext4Error> {
+    // The entry's `path()` method will not be called, so the value of
+    // the base path does not matter.
+    let path = Rc::new(PathBuf::empty());
+
+    let mut offset_within_block = 0;
+    while offset_within_block < block.len() {
+        let (dir_entry, entry_size) = DirEntry::from_bytes(
+            fs.clone(),
+            &block[offset_within_block..],
+            inode.index,
+            path.clone(),
+        )?;
+        offset_within_block = offset_within_block
+            .checked_add(entry_size.get())
+            .ok_or(CorruptKind::DirEntry(inode.index))?;
+        let Some(dir_entry) = dir_entry else {
+            continue;
+        };
+
+        if dir_entry.file_name() == name {
+            return Ok(Some(dir_entry));
+        }
+    }
+
+    Ok(None)
 }
 
 /// Find a directory entry via a directory htree. The htree is a tree of
@@ -378,36 +467,7 @@ pub(crate) fn get_dir_entry_via_htree(
         return Ok(entry);
     }
 
-    // Find the leaf node that might contain the entry. This will update
-    // `block` to contain the leaf node's block data.
-    find_leaf_node(fs, inode, name, &mut block)?;
-
-    // The entry's `path()` method will not be called, so the value of
-    // the base path does not matter.
-    let path = Rc::new(PathBuf::empty());
-
-    // Do a linear search through the leaf block for the right entry.
-    let mut offset_within_block = 0;
-    while offset_within_block < block.len() {
-        let (dir_entry, entry_size) = DirEntry::from_bytes(
-            fs.clone(),
-            &block[offset_within_block..],
-            inode.index,
-            path.clone(),
-        )?;
-        offset_within_block = offset_within_block
-            .checked_add(entry_size.get())
-            .ok_or(CorruptKind::DirEntry(inode.index))?;
-        let Some(dir_entry) = dir_entry else {
-            continue;
-        };
-
-        if dir_entry.file_name() == name {
-            return Ok(dir_entry);
-        }
-    }
-
-    Err(Ext4Error::NotFound)
+    find_entry(fs, inode, name, &mut block)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 36638143095908583b56fd511f6411a8853afdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 14/28] fix: support checksums of inodes without i_checksum_hi

If the inode is 128 bytes, or if its extra size is too small to include
the `i_checksum_hi` field, only the low 16 bits of the checksum are
stored. Such inodes could not be read.
---
 src/inode.rs | 68 +++++++++++++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/inode.rs b/src/inode.rs
index 15ad801..18452a9 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -137,18 +137,6 @@ impl Inode {
             .into());
         }
 
-        // If metadata checksums are enabled, the inode must be big
-        // enough to include the checksum fields.
-        if ext4.has_metadata_checksums()
-            && data.len() < (Self::I_CHECKSUM_HI_OFFSET + 2)
-        {
-            return Err(CorruptKind::InodeTruncated {
-                inode: index,
-                size: data.len(),
-            }
-            .into());
-        }
-
         let i_mode = read_u16le(data, 0x0);
         let i_uid = read_u16le(data, 0x2);
         let i_size_lo = read_u32le(data, 0x4);
@@ -160,16 +148,11 @@ impl Inode {
         let i_size_high = read_u32le(data, 0x6c);
         let l_i_uid_high = read_u16le(data, 0x74 + 0x4);
         let l_i_gid_high = read_u16le(data, 0x74 + 0x6);
-        let (l_i_checksum_lo, i_checksum_hi) = if ext4.has_metadata_checksums()
-        {
-            (
-                read_u16le(data, Self::L_I_CHECKSUM_LO_OFFSET),
-                read_u16le(data, Self::I_CHECKSUM_HI_OFFSET),
-            )
+        let l_i_checksum_lo = read_u16le(data, Self::L_I_CHECKSUM_LO_OFFSET);
+        let i_checksum_hi = if Self::has_checksum_hi(data) {
+            read_u16le(data, Self::I_CHECKSUM_HI_OFFSET)
         } else {
-            // If metadata checksums aren't enabled then these values
-            // aren't used; arbitrarily set to zero.
-            (0, 0)
+            0
         };
 
         let size_in_bytes = u64_from_hilo(i_size_high, i_size_lo);
@@ -212,6 +195,16 @@ impl Inode {
         ))
     }
 
+    /// Check if the inode has the `i_checksum_hi` field. If not, only
+    /// the low 16 bits of the checksum are stored.
+    fn has_checksum_hi(data: &[u8]) -> bool {
+        const I_EXTRA_ISIZE_OFFSET: usize = 0x80;
+        const MIN_EXTRA_ISIZE: u16 = 4;
+
+        data.len() >= Self::I_CHECKSUM_HI_OFFSET + 2
+            && read_u16le(data, I_EXTRA_ISIZE_OFFSET) >= MIN_EXTRA_ISIZE
+    }
+
     /// Read an inode.
     pub(crate) fn read(
         ext4: &Ext4,
@@ -238,19 +231,28 @@ impl Inode {
             // Zero'd field.
             checksum.update_u16_le(0);
 
-            // Up to the i_checksum_hi field.
-            checksum.update(
-                &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
-                    ..Self::I_CHECKSUM_HI_OFFSET],
-            );
-
-            // Zero'd field.
-            checksum.update_u16_le(0);
-
-            // Rest of the inode.
-            checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
+            let has_checksum_hi = Self::has_checksum_hi(&data);
+            if has_checksum_hi {
+                // Up to the i_checksum_hi field.
+                checksum.update(
+                    &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
+                        ..Self::I_CHECKSUM_HI_OFFSET],
+                );
+
+                // Zero'd field.
+                checksum.update_u16_le(0);
+
+                // Rest of the inode.
+                checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
+            } else {
+                // Rest of the inode.
+                checksum.update(&data[Self::L_I_CHECKSUM_LO_OFFSET + 2..]);
+            }
 
-            let actual_checksum = checksum.finalize();
+            let mut actual_checksum = checksum.finalize();
+            if !has_checksum_hi {
+                actual_checksum &= 0xffff;
+            }
             if actual_checksum != expected_checksum {
                 return Err(CorruptKind::InodeChecksum(inode.index).into());
             }
-- 
2.43.0


From 90d1c936d0bafe45773e9846fa49e39aacda2882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 15/28] fix: don't return encrypted data of files and symlinks

Encrypted files and symlinks can be moved to an unencrypted directory.
Return `Encrypted` rather than the encrypted data.
---
 src/file.rs  | 6 +++++-
 src/inode.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index f9ae5b0..ef972ee 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -9,7 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::error::{CorruptKind, Ext4Error};
-use crate::inode::Inode;
+use crate::inode::{Inode, InodeFlags};
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
 use crate::path::Path;
@@ -64,6 +64,10 @@ impl File {
         fs: &Ext4,
         inode: Inode,
     ) -> Result<Self, Ext4Error> {
+        if inode.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         Ok(Self {
             fs: fs.clone(),
             position: 0,
diff --git a/src/inode.rs b/src/inode.rs
index 18452a9..2f42c84 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -32,7 +32,7 @@ bitflags! {
         /// File is immutable.
         const IMMUTABLE = 0x10;
 
-        /// Directory is encrypted.
+        /// Directory (or regular file or symlink) is encrypted.
         const DIRECTORY_ENCRYPTED = 0x800;
 
         /// Directory has hashed indexes.
@@ -269,6 +269,10 @@ impl Inode {
             return Err(Ext4Error::NotASymlink);
         }
 
+        if self.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         // An empty symlink target is not allowed.
         if self.metadata.size_in_bytes == 0 {
             return Err(CorruptKind::SymlinkTarget(self.index).into());
-- 
2.43.0


From 92f289af41ba142431faabd5c33f1a5d0d8329e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 16/28] fix: apply journal revocations to earlier transactions

A revocation prevents the copies of a block in the same transaction and
all earlier transactions from being used. Earlier transactions were not
taken into account, so if a metadata block was freed and then used for
file data, the contents of the file were replaced with the old metadata.
---
 src/journal/block_map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 95ca2a3..b0bde2e 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -81,7 +81,8 @@ struct BlockMapLoader<'a> {
     /// Revoked blocks in the current transaction. When a commit block
     /// is reached, any keys in `uncommitted_block_map` that are in this
     /// revoked list will be deleted instead of committing them to
-    /// `block_map`.
+    /// `block_map`. Any keys in `block_map` from earlier transactions
+    /// are deleted as well.
     revoked_blocks: Vec<FsBlockIndex>,
 
     /// Iterator over blocks in the journal inode. At construction, the
@@ -230,11 +231,13 @@ impl<'a> BlockMapLoader<'a> {
     fn process_commit_block(&mut self) -> Result<(), Ext4Error> {
         validate_commit_block_checksum(self.superblock, &self.block)?;
 
-        // Remove any revoked blocks from uncommitted blocks.
+        // Remove any revoked blocks from uncommitted blocks and from
+        // earlier transactions.
         for block_index in &self.revoked_blocks {
             // Don't check the `remove` return value, as a revoked block
             // wasn't necessarily reused later in the transaction.
             self.uncommitted_block_map.remove(block_index);
+            self.block_map.remove(block_index);
         }
         self.revoked_blocks.clear();
 
-- 
2.43.0


From 0cf050ff68d5623511a90d84758280bbc374b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 17/28] fix: correct the size of the journal revocation table

The size stored in a revocation block includes the size of the header.
Two extra entries were read from past the end of the table, and the
journal was considered corrupt if a revocation block was nearly full.
---
 src/journal/block_map.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index b0bde2e..2b35b46 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -21,7 +21,7 @@ use crate::journal::revocation_block::{
     read_revocation_block_table, validate_revocation_block_checksum,
 };
 use crate::journal::superblock::JournalSuperblock;
-use crate::util::usize_from_u32;
+use crate::util::{read_u32be, usize_from_u32};
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
@@ -219,6 +219,17 @@ impl<'a> BlockMapLoader<'a> {
 
     fn process_revocation_block(&mut self) -> Result<(), Ext4Error> {
         validate_revocation_block_checksum(self.superblock, &self.block)?;
+
+        // The size in the block includes the size of the header and of
+        // the size field itself. Exclude that to get the table size.
+        const TABLE_OFFSET: usize = JournalBlockHeader::SIZE + size_of::<u32>();
+        let table_size = read_u32be(&self.block, JournalBlockHeader::SIZE)
+            // OK to unwrap: `TABLE_OFFSET` is 16.
+            .checked_sub(TABLE_OFFSET.try_into().unwrap())
+            .ok_or(CorruptKind::JournalRevocationBlockInvalidTableSize(0))?;
+        self.block[JournalBlockHeader::SIZE..TABLE_OFFSET]
+            .copy_from_slice(&table_size.to_be_bytes());
+
         read_revocation_block_table(&self.block, &mut self.revoked_blocks)
     }
 
-- 
2.43.0


From eb0c186f1e899f7617bbb6ddcdf112e1a8e73b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 18/28] fix: handle empty journals and journals that wrap
 around

The journal is circular. Transactions that continued at the beginning of
the journal were not read.
---
 src/journal/block_map.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 2b35b46..979a4ac 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -25,7 +25,7 @@ use crate::util::{read_u32be, usize_from_u32};
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
-use core::iter::Skip;
+use core::iter::{Chain, Skip, Take};
 
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
@@ -37,6 +37,11 @@ pub(super) fn load_block_map(
     superblock: &JournalSuperblock,
     journal_inode: &Inode,
 ) -> Result<BlockMap, Ext4Error> {
+    // The journal is empty if the start block is zero.
+    if superblock.start_block == 0 {
+        return Ok(BlockMap::new());
+    }
+
     let mut loader = BlockMapLoader::new(fs, superblock, journal_inode)?;
 
     while let Some(block_index) = loader.journal_block_iter.next() {
@@ -86,8 +91,11 @@ struct BlockMapLoader<'a> {
     revoked_blocks: Vec<FsBlockIndex>,
 
     /// Iterator over blocks in the journal inode. At construction, the
-    /// iterator is advanced to the journal start block.
-    journal_block_iter: Skip<FileBlocks>,
+    /// iterator is advanced to the journal start block. When the end of
+    /// the journal is reached, the iterator wraps around to the first
+    /// block after the journal superblock, and continues up to the
+    /// start block.
+    journal_block_iter: Chain<Skip<FileBlocks>, Skip<Take<FileBlocks>>>,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -120,12 +128,23 @@ impl<'a> BlockMapLoader<'a> {
         superblock: &'a JournalSuperblock,
         journal_inode: &Inode,
     ) -> Result<Self, Ext4Error> {
-        // Get an iterator over the journal's block indices.
-        let journal_block_iter = FileBlocks::new(fs.clone(), journal_inode)?;
+        if superblock.start_block >= journal_inode.file_size_in_blocks() {
+            return Err(CorruptKind::JournalSize.into());
+        }
+        let start_block = usize_from_u32(superblock.start_block);
+
+        // Get an iterator over the journal's block indices, and skip
+        // forward to the start block.
+        let before_wrap =
+            FileBlocks::new(fs.clone(), journal_inode)?.skip(start_block);
+
+        // The journal is circular. Wrap around to the first block after
+        // the journal superblock.
+        let after_wrap = FileBlocks::new(fs.clone(), journal_inode)?
+            .take(start_block)
+            .skip(1);
 
-        // Skip forward to the start block.
-        let journal_block_iter =
-            journal_block_iter.skip(usize_from_u32(superblock.start_block));
+        let journal_block_iter = before_wrap.chain(after_wrap);
 
         Ok(Self {
             fs,
-- 
2.43.0


From 1b16e78230fc65066e383a2eb02f1a802a45ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 19/28] fix: allow journal sequence numbers to wrap around

The sequence number is not necessarily small, for example e2fsck sets it
to a random number.
---
 src/error.rs             | 6 ------
 src/journal/block_map.rs | 6 ++----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0d4843f..77c173d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -266,9 +266,6 @@ pub(crate) enum CorruptKind {
     /// Journal revocation block has an invalid table size.
     JournalRevocationBlockInvalidTableSize(usize),
 
-    /// Journal sequence number overflowed.
-    JournalSequenceOverflow,
-
     /// Journal has a truncated descriptor block. Either it is missing a
     /// tag with the `LAST_TAG` flag set, or the final tag does have
     /// that flag set but there are not enough bytes to read the full
@@ -457,9 +454,6 @@ impl Display for CorruptKind {
                     "journal revocation block table size is invalid: {size}"
                 )
             }
-            Self::JournalSequenceOverflow => {
-                write!(f, "journal sequence number overflowed")
-            }
             Self::JournalDescriptorBlockTruncated => {
                 write!(f, "journal descriptor block is truncated")
             }
diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 979a4ac..2b22ba3 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -275,10 +275,8 @@ impl<'a> BlockMapLoader<'a> {
         self.block_map.extend(self.uncommitted_block_map.iter());
         self.uncommitted_block_map.clear();
 
-        self.sequence = self
-            .sequence
-            .checked_add(1)
-            .ok_or(CorruptKind::JournalSequenceOverflow)?;
+        // Sequence numbers are allowed to wrap around.
+        self.sequence = self.sequence.wrapping_add(1);
 
         Ok(())
     }
-- 
2.43.0


From 47134399f705f4b8c3d21b3d00ab1fd7f2b5eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 20/28] fix: use the superblock and group descriptors in the
 journal

The journal can contain newer versions of the superblock and the block
group descriptors, for example if the filesystem was resized or its
label was changed. The outdated versions were used.
---
 src/journal.rs | 61 +++++++++++++++++++++++++++++++++++++++++++++++++-
 src/lib.rs     | 54 +++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 108 insertions(+), 7 deletions(-)

diff --git a/src/journal.rs b/src/journal.rs
index 6fe4346..84ba094 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -15,8 +15,10 @@ mod superblock;
 
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::Ext4Error;
+use crate::block_size::BlockSize;
+use crate::error::{BoxedError, CorruptKind, Ext4Error};
 use crate::inode::Inode;
+use crate::reader::Ext4Read;
 use block_map::{BlockMap, load_block_map};
 use superblock::JournalSuperblock;
 
@@ -53,6 +55,12 @@ impl Journal {
         Ok(Self { block_map })
     }
 
+    /// Returns true if the journal does not contain a replacement for
+    /// any block.
+    pub(crate) fn is_empty(&self) -> bool {
+        self.block_map.is_empty()
+    }
+
     /// Map from an absolute block index to a block in the journal.
     ///
     /// If the journal does not contain a replacement for the input
@@ -65,6 +73,57 @@ impl Journal {
     }
 }
 
+/// Reader that replaces blocks that are in the journal.
+pub(crate) struct JournaledReader<'a> {
+    pub(crate) journal: &'a Journal,
+    pub(crate) block_size: BlockSize,
+    pub(crate) reader: &'a mut dyn Ext4Read,
+}
+
+impl Ext4Read for JournaledReader<'_> {
+    fn read(
+        &mut self,
+        mut start_byte: u64,
+        mut dst: &mut [u8],
+    ) -> Result<(), BoxedError> {
+        // Read one block (or part of one block) at a time.
+        while !dst.is_empty() {
+            let block_index = start_byte / self.block_size.to_nz_u64();
+            let offset = start_byte % self.block_size.to_nz_u64();
+
+            // OK to unwrap: `offset` is less than the block size, and
+            // the block size fits in a `usize`.
+            let remaining_in_block = usize::try_from(
+                self.block_size.to_u64().checked_sub(offset).unwrap(),
+            )
+            .unwrap();
+            let (chunk, rest) =
+                dst.split_at_mut(remaining_in_block.min(dst.len()));
+
+            let mapped = self.journal.map_block_index(block_index);
+            let mapped_start = mapped
+                .checked_mul(self.block_size.to_u64())
+                .and_then(|n| n.checked_add(offset))
+                .ok_or(CorruptKind::JournalSize)
+                .map_err(Ext4Error::from)?;
+            self.reader.read(mapped_start, chunk)?;
+
+            // If this is not the last chunk, the next one starts at the
+            // next block.
+            if !rest.is_empty() {
+                start_byte = block_index
+                    .checked_add(1)
+                    .and_then(|n| n.checked_mul(self.block_size.to_u64()))
+                    .ok_or(CorruptKind::JournalSize)
+                    .map_err(Ext4Error::from)?;
+            }
+            dst = rest;
+        }
+
+        Ok(())
+    }
+}
+
 #[cfg(all(test, feature = "std"))]
 mod tests {
     use crate::test_util::load_compressed_filesystem;
diff --git a/src/lib.rs b/src/lib.rs
index 2904d85..530b3f6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -151,7 +151,7 @@ use core::fmt::{self, Debug, Formatter};
 use error::CorruptKind;
 use features::ReadOnlyCompatibleFeatures;
 use inode::{Inode, InodeIndex};
-use journal::Journal;
+use journal::{Journal, JournaledReader};
 use resolve::FollowSymlinks;
 use superblock::Superblock;
 use util::usize_from_u32;
@@ -169,6 +169,12 @@ pub use path::{Component, Components, Path, PathBuf, PathError};
 pub use reader::{Ext4Read, MemIoError};
 pub use uuid::Uuid;
 
+/// Start of the superblock, in bytes.
+///
+/// The first 1024 bytes are reserved for "weird" stuff like x86 boot
+/// sectors.
+const SUPERBLOCK_START: u64 = 1024;
+
 struct Ext4Inner {
     superblock: Superblock,
 
@@ -195,6 +201,43 @@ struct Ext4Inner {
     reader: RefCell<Box<dyn Ext4Read>>,
 }
 
+impl Ext4Inner {
+    /// Update the superblock and block group descriptors, in case the
+    /// journal contains newer versions of those blocks.
+    fn reload_from_journal(&mut self) -> Result<(), Ext4Error> {
+        if self.journal.is_empty() {
+            return Ok(());
+        }
+
+        let block_size = self.superblock.block_size;
+        let mut reader = JournaledReader {
+            journal: &self.journal,
+            block_size,
+            reader: &mut **self.reader.get_mut(),
+        };
+
+        let mut data = vec![0; Superblock::SIZE_IN_BYTES_ON_DISK];
+        reader
+            .read(SUPERBLOCK_START, &mut data)
+            .map_err(Ext4Error::Io)?;
+
+        let superblock = Superblock::from_bytes(&data)?;
+        if superblock.block_size != block_size {
+            return Err(CorruptKind::InvalidBlockSize.into());
+        }
+
+        self.block_group_descriptors =
+            BlockGroupDescriptor::read_all(&superblock, &mut reader)?;
+        self.htree_hash_is_unsigned =
+            Superblock::has_unsigned_htree_hash(&data);
+        *self.block_cache.get_mut() =
+            BlockCache::new(block_size, superblock.blocks_count)?;
+        self.superblock = superblock;
+
+        Ok(())
+    }
+}
+
 /// Read-only access to an [ext4] filesystem.
 ///
 /// [ext4]: https://en.wikipedia.org/wiki/Ext4
@@ -207,12 +250,9 @@ impl Ext4 {
     /// This reads and validates the superblock, block group
     /// descriptors, and journal. No other data is read.
     pub fn load(mut reader: Box<dyn Ext4Read>) -> Result<Self, Ext4Error> {
-        // The first 1024 bytes are reserved for "weird" stuff like x86
-        // boot sectors.
-        let superblock_start = 1024;
         let mut data = vec![0; Superblock::SIZE_IN_BYTES_ON_DISK];
         reader
-            .read(superblock_start, &mut data)
+            .read(SUPERBLOCK_START, &mut data)
             .map_err(Ext4Error::Io)?;
 
         let superblock = Superblock::from_bytes(&data)?;
@@ -235,7 +275,9 @@ impl Ext4 {
 
         // Load the actual journal, if present.
         let journal = Journal::load(&fs)?;
-        Rc::get_mut(&mut fs.0).unwrap().journal = journal;
+        let inner = Rc::get_mut(&mut fs.0).unwrap();
+        inner.journal = journal;
+        inner.reload_from_journal()?;
 
         Ok(fs)
     }
-- 
2.43.0


From f2d4ace12de0881119f883eb771737196d904785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 21/28] fix: report errors of earlier blocks when indexing a
 block map

When looking up a block of an htree directory that uses a block map,
errors (such as failing reads) on the way to that block were ignored,
and reported as a corrupt directory entry.
---
 src/dir_htree.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 7b81116..c6fbe42 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -17,7 +17,7 @@ use crate::inode::{Inode, InodeFlags, InodeIndex};
 use crate::iters::extents::Extents;
 use crate::iters::file_blocks::FileBlocks;
 use crate::path::PathBuf;
-use crate::util::{read_u16le, read_u32le, usize_from_u32};
+use crate::util::{read_u16le, read_u32le};
 use alloc::rc::Rc;
 use alloc::vec;
 use alloc::vec::Vec;
@@ -312,9 +312,13 @@ fn block_from_file_block(
         Ok(absolute_block)
     } else {
         let mut block_map = FileBlocks::new(fs.clone(), inode)?;
-        block_map
-            .nth(usize_from_u32(relative_block))
-            .ok_or(CorruptKind::DirEntry(inode.index))?
+        // Don't use `nth` here, it would ignore errors.
+        for _ in 0..relative_block {
+            block_map
+                .next()
+                .ok_or(CorruptKind::DirEntry(inode.index))??;
+        }
+        block_map.next().ok_or(CorruptKind::DirEntry(inode.index))?
     }
 }
 
-- 
2.43.0


From 60bbbd89ba5a4c3b2a177363d833d994b55e2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 22/28] fix: report errors when skipping to the start of the
 journal

Errors in the part of the journal that is skipped over, such as failing
reads, were ignored, and the journal treated as empty or truncated.
---
 src/journal/block_map.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 2b22ba3..180be71 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -25,7 +25,7 @@ use crate::util::{read_u32be, usize_from_u32};
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
-use core::iter::{Chain, Skip, Take};
+use core::iter::{Chain, Take};
 
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
@@ -95,7 +95,7 @@ struct BlockMapLoader<'a> {
     /// the journal is reached, the iterator wraps around to the first
     /// block after the journal superblock, and continues up to the
     /// start block.
-    journal_block_iter: Chain<Skip<FileBlocks>, Skip<Take<FileBlocks>>>,
+    journal_block_iter: Chain<FileBlocks, Take<FileBlocks>>,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -134,15 +134,18 @@ impl<'a> BlockMapLoader<'a> {
         let start_block = usize_from_u32(superblock.start_block);
 
         // Get an iterator over the journal's block indices, and skip
-        // forward to the start block.
-        let before_wrap =
-            FileBlocks::new(fs.clone(), journal_inode)?.skip(start_block);
+        // forward to the start block. Don't use `skip` here, it would
+        // ignore errors.
+        let mut before_wrap = FileBlocks::new(fs.clone(), journal_inode)?;
+        for _ in 0..start_block {
+            before_wrap.next().ok_or(CorruptKind::JournalTruncated)??;
+        }
 
         // The journal is circular. Wrap around to the first block after
         // the journal superblock.
-        let after_wrap = FileBlocks::new(fs.clone(), journal_inode)?
-            .take(start_block)
-            .skip(1);
+        let mut after_wrap =
+            FileBlocks::new(fs.clone(), journal_inode)?.take(start_block);
+        after_wrap.next().ok_or(CorruptKind::JournalTruncated)??;
 
         let journal_block_iter = before_wrap.chain(after_wrap);
 
-- 
2.43.0


From db36749e6dc767068dc76d84d6e71ac94d8bf3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 23/28] fix: honour the extent of the log given in the journal
 superblock

---
 src/journal/block_map.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 180be71..eeca9e5 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -27,6 +27,10 @@ use alloc::vec;
 use alloc::vec::Vec;
 use core::iter::{Chain, Take};
 
+/// Offset within the journal superblock of the number of blocks in the
+/// journal. The index of the first block of the log follows.
+const JOURNAL_MAXLEN_OFFSET: u32 = 0x10;
+
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
 pub(super) type BlockMap = BTreeMap<FsBlockIndex, FsBlockIndex>;
@@ -93,9 +97,9 @@ struct BlockMapLoader<'a> {
     /// Iterator over blocks in the journal inode. At construction, the
     /// iterator is advanced to the journal start block. When the end of
     /// the journal is reached, the iterator wraps around to the first
-    /// block after the journal superblock, and continues up to the
-    /// start block.
-    journal_block_iter: Chain<FileBlocks, Take<FileBlocks>>,
+    /// block of the log (normally the one after the journal superblock),
+    /// and continues up to the start block.
+    journal_block_iter: Chain<Take<FileBlocks>, Take<FileBlocks>>,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -128,9 +132,25 @@ impl<'a> BlockMapLoader<'a> {
         superblock: &'a JournalSuperblock,
         journal_inode: &Inode,
     ) -> Result<Self, Ext4Error> {
-        if superblock.start_block >= journal_inode.file_size_in_blocks() {
+        // Read the extent of the log from the journal superblock. Only
+        // blocks from `first_block` up to (but not including)
+        // `num_blocks` are part of the log.
+        let block_index = FileBlocks::new(fs.clone(), journal_inode)?
+            .next()
+            .ok_or(CorruptKind::JournalTruncated)??;
+        let mut extent = [0; 8];
+        fs.read_from_block(block_index, JOURNAL_MAXLEN_OFFSET, &mut extent)?;
+        let num_blocks = read_u32be(&extent, 0);
+        let first_block = read_u32be(&extent, 4);
+        if num_blocks > journal_inode.file_size_in_blocks()
+            || first_block == 0
+            || superblock.start_block < first_block
+            || superblock.start_block >= num_blocks
+        {
             return Err(CorruptKind::JournalSize.into());
         }
+        let num_blocks = usize_from_u32(num_blocks);
+        let first_block = usize_from_u32(first_block);
         let start_block = usize_from_u32(superblock.start_block);
 
         // Get an iterator over the journal's block indices, and skip
@@ -140,12 +160,17 @@ impl<'a> BlockMapLoader<'a> {
         for _ in 0..start_block {
             before_wrap.next().ok_or(CorruptKind::JournalTruncated)??;
         }
+        // OK to unwrap: `start_block` is less than `num_blocks`.
+        let before_wrap =
+            before_wrap.take(num_blocks.checked_sub(start_block).unwrap());
 
-        // The journal is circular. Wrap around to the first block after
-        // the journal superblock.
+        // The journal is circular. Wrap around to the first block of
+        // the log.
         let mut after_wrap =
             FileBlocks::new(fs.clone(), journal_inode)?.take(start_block);
-        after_wrap.next().ok_or(CorruptKind::JournalTruncated)??;
+        for _ in 0..first_block {
+            after_wrap.next().ok_or(CorruptKind::JournalTruncated)??;
+        }
 
         let journal_block_iter = before_wrap.chain(after_wrap);
 
-- 
2.43.0


From d800efa3233c254c82a9c5a54f1891fdd9d1b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 24/28] fix: don't treat a corrupt journal inode as the end of
 the journal

---
 src/journal/block_map.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index eeca9e5..eb937c1 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -52,7 +52,9 @@ pub(super) fn load_block_map(
         loader.block_index = block_index?;
 
         if let Err(err) = loader.process_next() {
-            if let Ext4Error::Corrupt(_) = err {
+            if matches!(err, Ext4Error::Corrupt(_))
+                && !loader.is_journal_inode_corrupt
+            {
                 // If a corruption error occurred, stop reading the
                 // journal. Any uncommitted changes are discarded.
                 break;
@@ -124,6 +126,11 @@ struct BlockMapLoader<'a> {
     /// journal magic bytes, indicating the end of the journal has been
     /// reached.
     is_done: bool,
+
+    /// If true, the blocks of the journal inode could not be
+    /// determined. That says nothing about the end of the journal, so
+    /// it must not be treated that way.
+    is_journal_inode_corrupt: bool,
 }
 
 impl<'a> BlockMapLoader<'a> {
@@ -186,6 +193,7 @@ impl<'a> BlockMapLoader<'a> {
             data_block: vec![0; fs.0.superblock.block_size.to_usize()],
             sequence: superblock.sequence,
             is_done: false,
+            is_journal_inode_corrupt: false,
         })
     }
 
@@ -244,7 +252,9 @@ impl<'a> BlockMapLoader<'a> {
             let block_index = self
                 .journal_block_iter
                 .next()
-                .ok_or(CorruptKind::JournalTruncated)??;
+                .ok_or(CorruptKind::JournalTruncated)?;
+            self.is_journal_inode_corrupt = block_index.is_err();
+            let block_index = block_index?;
 
             // Check the data block checksum.
             let mut checksum = Checksum::new();
-- 
2.43.0


From dcb0e922bcea820734d97d1adb7cfc31f832ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 25/28] fix: reject symlink targets longer than a block

---
 src/inode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/inode.rs b/src/inode.rs
index 2f42c84..4644323 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -278,6 +278,12 @@ impl Inode {
             return Err(CorruptKind::SymlinkTarget(self.index).into());
         }
 
+        // The target never takes up more than one block. Check that
+        // before allocating memory for it.
+        if self.metadata.size_in_bytes > ext4.0.superblock.block_size.to_u64() {
+            return Err(CorruptKind::SymlinkTarget(self.index).into());
+        }
+
         // Symlink targets of up to 59 bytes are stored inline. Longer
         // targets are stored as regular file data.
         const MAX_INLINE_SYMLINK_LEN: u64 = 59;
-- 
2.43.0


From e9f77f0ce818041a79fe6cb68a0daa271c4486a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 26/28] fix: reject directories with holes, or larger than the
 filesystem

---
 src/dir_block.rs      | 21 ++++++++++++++++++++-
 src/dir_htree.rs      |  4 +++-
 src/iters/read_dir.rs |  4 +++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index 5511cb0..a1f0d84 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -11,7 +11,7 @@ use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
 use crate::dir_entry::decode_rec_len;
 use crate::error::{CorruptKind, Ext4Error};
-use crate::inode::InodeIndex;
+use crate::inode::{Inode, InodeIndex};
 use crate::util::{read_u16le, read_u32le};
 
 #[derive(Debug, Eq, PartialEq)]
@@ -48,6 +48,20 @@ pub(crate) struct DirBlock<'a> {
     pub(crate) checksum_base: Checksum,
 }
 
+/// Check that the directory `inode` is not larger than the whole
+/// filesystem. This limits the amount of work done if the inode or the
+/// tree of its blocks is corrupt.
+pub(crate) fn check_dir_size(
+    fs: &Ext4,
+    inode: &Inode,
+) -> Result<(), Ext4Error> {
+    let num_blocks = u64::from(inode.file_size_in_blocks());
+    if num_blocks > fs.0.superblock.blocks_count {
+        return Err(CorruptKind::DirEntry(inode.index).into());
+    }
+    Ok(())
+}
+
 impl DirBlock<'_> {
     /// Read the directory block's contents into `block`.
     ///
@@ -57,6 +71,11 @@ impl DirBlock<'_> {
         let block_size = self.fs.0.superblock.block_size;
         assert_eq!(block.len(), block_size);
 
+        // Directories do not have holes.
+        if self.block_index == 0 {
+            return Err(CorruptKind::DirEntry(self.dir_inode).into());
+        }
+
         self.fs.read_from_block(self.block_index, 0, block)?;
 
         if !self.fs.has_metadata_checksums() {
diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index c6fbe42..1036244 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -8,7 +8,7 @@
 
 use crate::Ext4;
 use crate::block_index::{FileBlockIndex, FsBlockIndex};
-use crate::dir_block::DirBlock;
+use crate::dir_block::{DirBlock, check_dir_size};
 use crate::dir_entry::{DirEntry, DirEntryName};
 use crate::dir_entry_hash::HashAlg;
 use crate::error::{CorruptKind, Ext4Error};
@@ -459,6 +459,8 @@ pub(crate) fn get_dir_entry_via_htree(
 ) -> Result<DirEntry, Ext4Error> {
     assert!(inode.flags.contains(InodeFlags::DIRECTORY_HTREE));
 
+    check_dir_size(fs, inode)?;
+
     let block_size = fs.0.superblock.block_size;
     let mut block = vec![0; block_size.to_usize()];
 
diff --git a/src/iters/read_dir.rs b/src/iters/read_dir.rs
index 9f299f0..995e8be 100644
--- a/src/iters/read_dir.rs
+++ b/src/iters/read_dir.rs
@@ -9,7 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
-use crate::dir_block::DirBlock;
+use crate::dir_block::{DirBlock, check_dir_size};
 use crate::dir_entry::DirEntry;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::{Inode, InodeFlags, InodeIndex};
@@ -76,6 +76,8 @@ impl ReadDir {
             return Err(Ext4Error::Encrypted);
         }
 
+        check_dir_size(&fs, inode)?;
+
         Ok(Self {
             fs: fs.clone(),
             path: Rc::new(path),
-- 
2.43.0


From a328dbcb8d5fa1c856319b86aeef096c0201eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 27/28] fix: reject a journal larger than the filesystem

---
 src/journal/block_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index eb937c1..bb20799 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -150,6 +150,7 @@ impl<'a> BlockMapLoader<'a> {
         let num_blocks = read_u32be(&extent, 0);
         let first_block = read_u32be(&extent, 4);
         if num_blocks > journal_inode.file_size_in_blocks()
+            || u64::from(num_blocks) > fs.0.superblock.blocks_count
             || first_block == 0
             || superblock.start_block < first_block
             || superblock.start_block >= num_blocks
-- 
2.43.0


From 07d0b8bc06ff17ef46f37ca2e5310f2b32ab98c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:57 +0000
Subject: [PATCH 28/28] fix: don't treat unused block cache entries as block
 zero

---
 src/block_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block_cache.rs b/src/block_cache.rs
index c1b6b2f..8d5ad67 100644
--- a/src/block_cache.rs
+++ b/src/block_cache.rs
@@ -103,7 +103,9 @@ impl BlockCache {
 
         let entries = vec![
             CacheEntry {
-                block_index: 0,
+                // Mark the entry as unused. This can't be a valid index
+                // since it is never less than `num_fs_blocks`.
+                block_index: FsBlockIndex::MAX,
                 data: vec![0; opts.block_size.to_usize()].into_boxed_slice(),
             };
             opts.num_entries
-- 
2.43.0

