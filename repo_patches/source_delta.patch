From 6c9d023ce2f9dec6338da8323c7d730b9c75c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 01/23] fix: read array data from each member's data offset

---
 src/md/array.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index a93a272..0f5b547 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -158,10 +158,16 @@ where
                     .ok_or(io::ErrorKind::InvalidInput)?
                     .as_ref()
                     .try_clone()?;
+                let data_offset = device
+                    .superblock
+                    .as_option()
+                    .ok_or(io::ErrorKind::InvalidInput)?
+                    .data_offset();
                 let mut reader = BlockDeviceReader::new(device);
                 reader.seek(SeekFrom::Start(
                     u64::from(sector_number)
-                        .checked_mul(512)
+                        .checked_add(u64::from(data_offset))
+                        .and_then(|sector_number| sector_number.checked_mul(512))
                         .ok_or(io::ErrorKind::InvalidInput)?,
                 ))?;
                 reader.read_exact(&mut buf[..512])?;
-- 
2.43.0


From 74e327c7c7b4365f7a348fb451e67cfb71b4bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 02/23] fix: let array blocks be read into a buffer larger than
 a block

---
 src/md/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index 0f5b547..bc93bc7 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -174,7 +174,7 @@ where
                 Ok(512)
             },
         )?;
-        buf.copy_from_slice(&block);
+        buf[..512].copy_from_slice(&block);
         Ok(512)
     }
 
-- 
2.43.0


From abc688f634c4b59b38b5f42ef1ac18109a438158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 03/23] fix: refuse in-memory blocks outside the device and
 accept large buffers

---
 src/block_device/in_memory.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/block_device/in_memory.rs b/src/block_device/in_memory.rs
index d4bac11..7333d23 100644
--- a/src/block_device/in_memory.rs
+++ b/src/block_device/in_memory.rs
@@ -41,8 +41,14 @@ impl BlockDevice for InMemoryBlockDevice {
                     .ok_or(io::ErrorKind::InvalidInput)?,
             )
             .or(Err(io::Error::from(io::ErrorKind::InvalidInput)))?;
-            buf.copy_from_slice(&self.mem[offset..][..usize::from(self.block_size)]);
-            Ok(usize::from(self.block_size))
+            let block_size = usize::from(self.block_size);
+            let block = self
+                .mem
+                .get(offset..)
+                .and_then(|rest| rest.get(..block_size))
+                .ok_or(io::ErrorKind::UnexpectedEof)?;
+            buf[..block_size].copy_from_slice(block);
+            Ok(block_size)
         }
     }
 
-- 
2.43.0


From 50b28030600cd438a7e6d49ac08fe635bc3520c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 04/23] fix: refuse to read array blocks past the end of the
 array

---
 src/md/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index bc93bc7..34310b3 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -130,7 +130,7 @@ where
     }
 
     fn read_block(&mut self, block_number: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
-        if buf.len() < 512 {
+        if buf.len() < 512 || block_number >= self.block_count()? {
             Err(io::ErrorKind::InvalidInput)?;
         }
 
-- 
2.43.0


From 4e1f64e6454310f5dfa6dcab93a3b01f8bdc844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 05/23] fix: merge member role lists independently of member
 order

---
 src/md/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index 34310b3..7ffc168 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -39,10 +39,10 @@ where
                             .zip_longest(roles)
                             .map(|pair| match pair {
                                 EitherOrBoth::Both(left, right) => {
-                                    if left.is_spare() || right.is_invalid() || left.is_faulty() {
+                                    if left.is_spare() || left.is_invalid() || left.is_faulty() {
                                         Some(right)
                                     } else if right.is_spare()
-                                        || left.is_invalid()
+                                        || right.is_invalid()
                                         || right.is_faulty()
                                         || left == right
                                     {
-- 
2.43.0


From e6645d99342ea356fb82d297b39fe2771a31c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 06/23] fix: use version 0 superblock sizes in their on-disk
 units

---
 src/md/superblock/version_0/superblock.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index dbab112..d1eb282 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -126,11 +126,13 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn sectors_per_device(&self) -> SectorCount<u64> {
-        self.sectors_per_device.into()
+        // The version 0 superblock records the size in KiB.
+        SectorCount(u64::from(self.sectors_per_device) * 2)
     }
 
     fn chunk_size(&self) -> SectorCount<u32> {
-        self.chunk_size
+        // The version 0 superblock records the chunk size in bytes.
+        SectorCount(u32::from(self.chunk_size) / 512)
     }
 
     fn raid_device_count(&self) -> DeviceCount {
@@ -138,7 +140,14 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn reshape_status(&self) -> Option<ReshapeStatus> {
-        Some(self.reshape_status.clone())
+        if self.minor_version > 90 {
+            Some(ReshapeStatus {
+                new_chunk_size: SectorCount(u32::from(self.reshape_status.new_chunk_size) / 512),
+                ..self.reshape_status.clone()
+            })
+        } else {
+            None
+        }
     }
 
     fn data_offset(&self) -> SectorNumber {
-- 
2.43.0


From c016e364408694e61cf2c5720a780b58a3f9684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 07/23] fix: accept the highest valid role in version 0
 superblocks

---
 src/md/superblock/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/superblock/role.rs b/src/md/superblock/role.rs
index 57223cf..ca87173 100644
--- a/src/md/superblock/role.rs
+++ b/src/md/superblock/role.rs
@@ -16,7 +16,7 @@ impl MdDeviceRole {
     }
 
     pub fn is_valid(&self) -> bool {
-        !(Self::MAX_POSITION..Self::JOURNAL).contains(&self.0)
+        !self.is_invalid()
     }
 
     pub fn device_number(&self) -> Option<DeviceNumber> {
-- 
2.43.0


From aa7d41536a66be92ca14de5c310db0fdd2f63672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 08/23] fix: refuse zero blocks per group and absurd block
 counts without panicking

---
 src/ext4/fs.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 3b5321f..296baa2 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -30,8 +30,6 @@ where
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
-            .or(Err(io::ErrorKind::Unsupported))?;
         let group_size = usize::from(superblock.group_descriptor_size());
 
         if blocks_per_group == 0
@@ -46,11 +44,14 @@ where
             return Err(io::ErrorKind::Unsupported.into());
         }
 
+        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
+            .or(Err(io::ErrorKind::Unsupported))?;
+
         let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
         device.seek(SeekFrom::Start(
             group_descriptors_block_number * superblock.block_size_bytes(),
         ))?;
-        let mut group_descriptors = Vec::with_capacity(group_count);
+        let mut group_descriptors = Vec::new();
         for _ in 0..group_count {
             let mut buf = vec![0u8; group_size];
             device.read_exact(&mut buf)?;
-- 
2.43.0


From 93bb78352bbbc3dbf1c47950bcd02e29b8598eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 09/23] fix: refuse block sizes which ext4 does not support

---
 src/ext4/superblock/superblock.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index c667dfb..3feffa7 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -142,7 +142,8 @@ impl<S: AsRef<[u8]>> Superblock<S> {
     }
 
     pub fn valid_block_size(&self) -> bool {
-        self.view().into_log_block_size().read() < 53
+        // ext4 supports block sizes from 1 KiB to 64 KiB.
+        self.view().into_log_block_size().read() <= 6
     }
 
     pub fn valid_cluster_size(&self) -> bool {
-- 
2.43.0


From d415b3130d606522bc50f3b4d9a26f955e38509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 10/23] fix: decode inodes of any size and extra size without
 panicking

---
 src/ext4/fs.rs          | 1 +
 src/ext4/inode/inode.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 296baa2..049fe2d 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -35,6 +35,7 @@ where
         if blocks_per_group == 0
             || group_size == 0
             || superblock.inodes_per_group() == InodeCount(0)
+            || superblock.inode_size() < Inode::MIN_SIZE
             || superblock.creator_os() != CreatorOs::Linux
             || !superblock
                 .incompatible_features()
diff --git a/src/ext4/inode/inode.rs b/src/ext4/inode/inode.rs
index d5b5887..31e341a 100644
--- a/src/ext4/inode/inode.rs
+++ b/src/ext4/inode/inode.rs
@@ -49,21 +49,24 @@ pub struct Inode {
 }
 
 impl Inode {
+    pub const MIN_SIZE: u16 = layout::extra_isize::OFFSET as u16;
+
     pub fn new(
         superblock: &Superblock<impl AsRef<[u8]>>,
         inode_number: InodeNumber,
         buffer: impl AsRef<[u8]>,
     ) -> Self {
         let storage = {
-            let source_length = layout::extra_isize::OFFSET
+            let source_length = (layout::extra_isize::OFFSET
                 + (if buffer.as_ref().len()
                     > layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap()
                 {
                     usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
                 } else {
                     0
-                })
-                .clamp(0, layout::SIZE.unwrap());
+                }))
+            .clamp(0, layout::SIZE.unwrap())
+            .min(buffer.as_ref().len());
 
             let mut storage = [0u8; layout::SIZE.unwrap()];
             storage[..source_length].copy_from_slice(&buffer.as_ref()[..source_length]);
-- 
2.43.0


From f97c908b6ba56e16f1ff44472483c595b075f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 11/23] fix: decode extents of 32768 initialized blocks

---
 src/ext4/extent/extent.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ext4/extent/extent.rs b/src/ext4/extent/extent.rs
index 9eda2d8..29d48d8 100644
--- a/src/ext4/extent/extent.rs
+++ b/src/ext4/extent/extent.rs
@@ -20,12 +20,19 @@ impl<S: AsRef<[u8]>> Extent<S> {
         self.0.first_file_block_number().read()
     }
 
+    const MAX_INITIALIZED_LENGTH: u16 = 0x8000;
+
     pub fn initialized(&self) -> bool {
-        self.0.length().read() & 0x8000 != 0x8000
+        self.0.length().read() <= Self::MAX_INITIALIZED_LENGTH
     }
 
     pub fn length(&self) -> BlockCount<u16> {
-        BlockCount(self.0.length().read() & 0x7fff)
+        let length = self.0.length().read();
+        BlockCount(if self.initialized() {
+            length
+        } else {
+            length - Self::MAX_INITIALIZED_LENGTH
+        })
     }
 
     pub fn first_fs_block_number(&self) -> FsBlockNumber {
-- 
2.43.0


From ff9f296a3a860f2a008f0c46f784466c39c46743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 12/23] fix: read unwritten extents as zeros

---
 src/ext4/file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 952b390..2f5cb9b 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -135,8 +135,12 @@ where
                             return Err(io::ErrorKind::InvalidData.into());
                         }
 
-                        self.fs
-                            .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        if extent.initialized() {
+                            self.fs
+                                .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        } else {
+                            buf[..self.fs.block_size()].fill(0);
+                        }
                         let bytes_read = usize::try_from(self.file_size_bytes() - self.byte_pos)
                             .unwrap_or(usize::MAX)
                             .clamp(0, self.fs.block_size());
-- 
2.43.0


From 1cbac70ea777bc8f40ae047c916c9a10f6dc7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 13/23] fix: read only one block into a buffer larger than a
 block

---
 src/ext4/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 049fe2d..8803b82 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -123,7 +123,8 @@ where
                     .checked_mul(self.superblock.block_size_bytes())
                     .ok_or(io::ErrorKind::InvalidInput)?,
             ))?;
-            self.device.read_exact(buf)?;
+            let block_size = self.block_size();
+            self.device.read_exact(&mut buf[..block_size])?;
             Ok(())
         }
     }
-- 
2.43.0


From 03cd32ea508af034a72453020ac836bbccbe7d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 14/23] fix: find the checksum of an extent tree node after its
 maximum entries

---
 src/ext4/extent/tree.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index 30198e2..a30dd9b 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -206,14 +206,20 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             return false;
         }
 
-        let entries_size = self.entries_size();
+        if self.entry_count() > self.max_entries() {
+            return false;
+        }
+
+        // The tail follows the space for the maximum number of entries,
+        // whether or not those entries are in use.
+        let max_entries_size = self.max_entries() * index::layout::SIZE.unwrap();
 
         let tail_size = match self.checksum_seed {
             Some(_) => tail::layout::SIZE.unwrap(),
             None => 0,
         };
 
-        if self.view().entries_and_tail().as_ref().len() < entries_size + tail_size {
+        if self.view().entries_and_tail().as_ref().len() < max_entries_size + tail_size {
             return false;
         }
 
@@ -222,10 +228,10 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             Some(checksum_seed) => {
                 let expected_checksum = ext4_crc32c(
                     checksum_seed,
-                    &self.storage.as_ref()[..layout::entries_and_tail::OFFSET + entries_size],
+                    &self.storage.as_ref()[..layout::entries_and_tail::OFFSET + max_entries_size],
                 );
 
-                tail::layout::View::new(&self.view().entries_and_tail()[entries_size..])
+                tail::layout::View::new(&self.view().entries_and_tail()[max_entries_size..])
                     .checksum()
                     .read()
                     == expected_checksum
-- 
2.43.0


From 0a033253163f9bb45744bf92877251b66c383dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 15/23] fix: refuse damaged extent trees instead of panicking
 or reading on

---
 src/ext4/extent/tree.rs | 13 +++++++++++++
 src/ext4/file.rs        | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index a30dd9b..ffb2874 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -28,6 +28,8 @@ impl<'inode> ExtentTree<&'inode [u8]> {
 }
 
 impl<S: AsRef<[u8]>> ExtentTree<S> {
+    pub const MAX_DEPTH: u16 = 5;
+
     pub fn from_block(inode: &Inode, block: S) -> Self {
         Self::from_internal(ExtentTreeInternal::from_block(inode, block))
     }
@@ -47,6 +49,13 @@ impl<S: AsRef<[u8]>> ExtentTree<S> {
         }
     }
 
+    pub fn depth(&self) -> u16 {
+        match self {
+            ExtentTree::Branch(branch) => branch.depth(),
+            ExtentTree::Leaf(_) => 0,
+        }
+    }
+
     pub fn entry_count(&self) -> usize {
         match self {
             ExtentTree::Branch(branch) => branch.subtree_count(),
@@ -70,6 +79,10 @@ impl<S: AsRef<[u8]>> ExtentBranch<S> {
         self.0.valid()
     }
 
+    pub fn depth(&self) -> u16 {
+        self.0.depth()
+    }
+
     pub fn subtree_count(&self) -> usize {
         self.0.entry_count()
     }
diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 2f5cb9b..3d73119 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -60,6 +60,9 @@ where
         let tree = ExtentTree::from_inode(&inode)
             .ok_or(io::ErrorKind::Unsupported)?
             .to_owned();
+        if !tree.valid() || tree.depth() > ExtentTree::<Vec<u8>>::MAX_DEPTH {
+            return Err(io::ErrorKind::InvalidData.into());
+        }
 
         Ok(Self {
             fs,
@@ -103,6 +106,12 @@ where
                                 let mut subtree_block = vec![0; self.fs.block_size()];
                                 self.fs.read_block(index.leaf(), &mut subtree_block)?;
                                 let subtree = ExtentTree::from_block(&self.inode, subtree_block);
+                                if !subtree.valid()
+                                    || subtree.entry_count() == 0
+                                    || Some(subtree.depth()) != branch.depth().checked_sub(1)
+                                {
+                                    return Err(io::ErrorKind::InvalidData.into());
+                                }
                                 self.read_stack.push(ReadStackEntry::Tree {
                                     tree: ExtentTree::Branch(branch),
                                     pos: pos + 1,
@@ -114,7 +123,9 @@ where
                             }
                             ExtentTree::Leaf(leaf) => {
                                 let extent = leaf.extent_at(pos).unwrap().into_owned();
-                                if extent.first_file_block_number() != self.block_pos {
+                                if extent.first_file_block_number() != self.block_pos
+                                    || extent.length() == BlockCount(0)
+                                {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
                                 self.read_stack.push(ReadStackEntry::Tree {
-- 
2.43.0


From 12d4f43ba16dbf07c7a7bd7aebf40092174e48b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 16/23] fix: end directory entry names at their recorded length

---
 src/ext4/directory/dir_entry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index 2c293e4..c673860 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -31,7 +31,8 @@ impl<'buf> DirEntry<&'buf [u8]> {
 
 impl<S: AsRef<[u8]>> DirEntry<S> {
     pub fn name(&self) -> Ext4String<&[u8]> {
-        Ext4String::from_null_terminated_bytes(self.view().into_name().into_slice())
+        let name_length = usize::from(self.view().name_length().read());
+        Ext4String::from_null_terminated_bytes(&self.view().into_name().into_slice()[..name_length])
     }
 
     pub fn file_type(&self) -> Ext4DirectoryInlineFileType {
-- 
2.43.0


From b30aa71fe870a66e7143d0ab98544d164f600e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 17/23] fix: skip unused directory entries

---
 src/ext4/directory/block.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ext4/directory/block.rs b/src/ext4/directory/block.rs
index 05b4f47..0feec59 100644
--- a/src/ext4/directory/block.rs
+++ b/src/ext4/directory/block.rs
@@ -1,6 +1,7 @@
 use crate::ext4::crc::ext4_crc32c;
 use crate::ext4::directory::dir_entry::DirEntry;
 use crate::ext4::directory::dir_entry_tail;
+use crate::ext4::units::InodeNumber;
 
 pub struct Ext4DirectoryBlock<S: AsRef<[u8]>> {
     storage: S,
@@ -46,10 +47,16 @@ impl<S: AsRef<[u8]>> Ext4DirectoryBlock<S> {
     }
 
     pub fn read_next_entry(&mut self) -> Option<DirEntry<&[u8]>> {
-        let rest = &self.storage.as_ref()[self.pos..self.len];
-        let (entry, rest) = DirEntry::from_buf(rest);
-        self.pos = rest.as_ptr() as usize - self.storage.as_ref().as_ptr() as usize;
-        entry
+        loop {
+            let rest = &self.storage.as_ref()[self.pos..self.len];
+            let (entry, rest) = DirEntry::from_buf(rest);
+            self.pos = rest.as_ptr() as usize - self.storage.as_ref().as_ptr() as usize;
+            match entry {
+                // Inode 0 marks an unused entry.
+                Some(entry) if entry.inode() == InodeNumber(0) => continue,
+                entry => return entry,
+            }
+        }
     }
 }
 
-- 
2.43.0


From ef18b3b531d3feb5dcc3a1cb343c154ee3ed2012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 18/23] fix: order names consistently with their equality

---
 src/ext4/string.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ext4/string.rs b/src/ext4/string.rs
index 63788d7..b182134 100644
--- a/src/ext4/string.rs
+++ b/src/ext4/string.rs
@@ -73,9 +73,7 @@ impl<S: AsRef<[u8]>> PartialOrd for Ext4String<S> {
 
 impl<S: AsRef<[u8]>> Ord for Ext4String<S> {
     fn cmp(&self, other: &Self) -> Ordering {
-        let left = self.to_str_lossy();
-        let right = other.to_str_lossy();
-        left.cmp(&right)
+        self.0.as_ref().cmp(other.0.as_ref())
     }
 }
 
-- 
2.43.0


From 7dec5e2de13fb732c73f66b6bc81a851f12ef27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 19/23] verif: add guarded hooks for the verification harness

---
 src/ext4/fs.rs  | 18 ++++++++++++++++++
 src/main.rs     |  7 ++++++-
 src/md/array.rs | 19 +++++++++++++++++++
 src/md/mod.rs   |  3 +++
 src/verif.rs    | 17 +++++++++++++++++
 5 files changed, 63 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 8803b82..3ad08fb 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -134,6 +134,24 @@ where
     }
 }
 
+#[cfg(md_recover_verif)]
+impl<D> Ext4Fs<D>
+where
+    D: BlockDevice + Read + Seek,
+{
+    pub fn verif_superblock(&self) -> &Superblock<Vec<u8>> {
+        &self.superblock
+    }
+
+    pub fn verif_group_descriptors(&self) -> &[BlockGroupDescriptor] {
+        &self.group_descriptors
+    }
+
+    pub fn verif_read_inode(&mut self, inode_number: u32) -> io::Result<Inode> {
+        self.read_inode(InodeNumber(inode_number))
+    }
+}
+
 #[cfg(test)]
 pub(in crate::ext4) mod test {
     use crate::block_device::{BlockSize, InMemoryBlockDevice};
diff --git a/src/main.rs b/src/main.rs
index c260d95..aa99a24 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,4 @@
-#![allow(dead_code, clippy::module_inception)]
+#![allow(dead_code, unexpected_cfgs, clippy::module_inception)]
 
 #[macro_use]
 extern crate arrayref;
@@ -17,6 +17,11 @@ mod ext4;
 mod ioctl;
 mod md;
 
+// Verification only: makes the crate's modules reachable from a harness which
+// builds this file as a library. Absent unless `--cfg md_recover_verif` is set.
+#[cfg(md_recover_verif)]
+pub mod verif;
+
 #[derive(Parser, Debug)]
 #[command(author, version, about)]
 struct Options {
diff --git a/src/md/array.rs b/src/md/array.rs
index 7ffc168..b333f64 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -184,3 +184,22 @@ where
         })
     }
 }
+
+#[cfg(md_recover_verif)]
+impl<D> MdArray<D>
+where
+    D: BlockDevice + Read + Seek,
+{
+    /// The active devices with their numbers, and the inactive devices.
+    #[allow(clippy::type_complexity)]
+    pub fn verif_assembly(&self) -> (Vec<(u32, Rc<MdDevice<D>>)>, Vec<Rc<MdDevice<D>>>) {
+        (
+            self.definition
+                .devices
+                .iter()
+                .map(|(number, device)| (u32::from(*number), device.clone()))
+                .collect(),
+            self.definition.inactive_devices.clone(),
+        )
+    }
+}
diff --git a/src/md/mod.rs b/src/md/mod.rs
index 6c71e93..590dc61 100644
--- a/src/md/mod.rs
+++ b/src/md/mod.rs
@@ -9,6 +9,9 @@ mod raid6;
 pub mod superblock;
 mod units;
 
+#[cfg(md_recover_verif)]
+pub use self::algorithm::MdAlgorithm;
+
 #[allow(unused_imports)]
 pub use self::{
     array::MdArray,
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..eeecea6
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,17 @@
+#![allow(unused_imports)]
+
+pub mod block_device {
+    pub use crate::block_device::*;
+}
+
+pub mod ext {
+    pub use crate::ext::*;
+}
+
+pub mod ext4 {
+    pub use crate::ext4::*;
+}
+
+pub mod md {
+    pub use crate::md::*;
+}
-- 
2.43.0


From d90c3f7eda01f85249590e60a32e75a50c46abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 20/23] fix: verify the superblock checksum exactly if metadata
 checksums are enabled

---
 src/ext4/superblock/superblock.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index 3feffa7..67a9709 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -170,9 +170,13 @@ impl<S: AsRef<[u8]>> Superblock<S> {
 
     pub fn valid_checksum(&self) -> bool {
         match self.checksum() {
-            Checksum::None => true,
-            Checksum::Crc32c(checksum) => checksum == self.expected_checksum(),
             Checksum::Unknown(_, _) => false,
+            checksum => {
+                !self
+                    .read_only_compatible_features()
+                    .contains(ReadOnlyCompatibleFeatures::METADATA_CHECKSUMS)
+                    || checksum == Checksum::Crc32c(self.expected_checksum())
+            }
         }
     }
 
-- 
2.43.0


From 52bff7600dd715194b838e5e74d21c2e915eeb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 21/23] fix: read 32-byte group descriptors of filesystems
 which are not 64-bit

---
 src/ext4/superblock/superblock.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index 67a9709..9fb9dea 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -407,7 +407,15 @@ impl<S: AsRef<[u8]>> Superblock<S> {
     }
 
     pub fn group_descriptor_size(&self) -> u16 {
-        self.view().into_group_descriptor_size().read()
+        if self
+            .incompatible_features()
+            .contains(IncompatibleFeatures::IS_64_BIT)
+        {
+            self.view().into_group_descriptor_size().read()
+        } else {
+            // The recorded size is meaningful only for 64-bit filesystems.
+            32
+        }
     }
 
     pub fn default_mount_options(&self) -> MountOptions {
-- 
2.43.0


From 11c892cdb00b31fb7d5264c9bc75ee3e2d0799be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:16 +0000
Subject: [PATCH 22/23] fix: continue after a block of a file which cannot be
 read

---
 src/ext4/file.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 3d73119..f48764a 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -146,16 +146,18 @@ where
                             return Err(io::ErrorKind::InvalidData.into());
                         }
 
-                        if extent.initialized() {
-                            self.fs
-                                .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        let block_number = if extent.initialized() {
+                            Some(extent.first_fs_block_number() + pos)
                         } else {
-                            buf[..self.fs.block_size()].fill(0);
-                        }
+                            None
+                        };
                         let bytes_read = usize::try_from(self.file_size_bytes() - self.byte_pos)
                             .unwrap_or(usize::MAX)
                             .clamp(0, self.fs.block_size());
 
+                        // Move on before reading, so that a block which can't
+                        // be read doesn't make the following blocks
+                        // inaccessible.
                         self.read_stack.push(ReadStackEntry::Extent {
                             extent,
                             pos: pos + BlockCount(1),
@@ -164,6 +166,11 @@ where
                         self.byte_pos += u64::try_from(bytes_read).unwrap();
                         self.block_pos += BlockCount(1);
 
+                        match block_number {
+                            Some(block_number) => self.fs.read_block(block_number, buf)?,
+                            None => buf[..self.fs.block_size()].fill(0),
+                        }
+
                         return Ok(bytes_read);
                     }
                 }
-- 
2.43.0


From 69033aa1b64155f3c086a30c6728dbeaa72f8e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 23/23] verif: make names reachable from the verification
 harness

---
 src/ext4/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ext4/mod.rs b/src/ext4/mod.rs
index 5dc78f6..0e6c974 100644
--- a/src/ext4/mod.rs
+++ b/src/ext4/mod.rs
@@ -14,3 +14,6 @@ mod units;
 pub use self::{
     directory::Ext4Directory, file::Ext4File, fs::Ext4Fs, regular_file::Ext4RegularFile,
 };
+
+#[cfg(md_recover_verif)]
+pub use self::string::Ext4String;
-- 
2.43.0

