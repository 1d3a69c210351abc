From a5eadda35296cb9dd862139655f1e497e166b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:11 +0000
Subject: [PATCH 01/40] fix: read only the remaining part of a stripe in
 RAID4/5/6 reads

Reads that span more than one stripe returned the full remaining length
from every member they touched, so the result was too long and every
byte after the first stripe was misplaced.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2d1edeb..e5f55ae 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -366,7 +366,7 @@ class RAID456Stream(AlignedStream):
 
             offset_on_disk = dd_dev.offset + dd_start + offset_in_device
             dd_dev.fh.seek(offset_on_disk)
-            result.append(dd_dev.fh.read(length))
+            result.append(dd_dev.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From 8ccbe6254054259cae493e3b1ca2b2c37ff9d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:11 +0000
Subject: [PATCH 02/40] fix: read only the remaining part of a stripe in RAID10
 reads

Reads that span more than one stripe returned the full remaining length
from every member they touched.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index e5f55ae..2216af6 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -424,7 +424,7 @@ class RAID10Stream(AlignedStream):
 
             offset_on_disk = device.offset + device_start + (stripe * stripe_size) + offset_in_stripe
             device.fh.seek(offset_on_disk)
-            result.append(device.fh.read(length))
+            result.append(device.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From d7308d05ae56cdbb0265cd52248aa03347d26bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:22 +0000
Subject: [PATCH 03/40] fix: compare rounded sizes when counting RAID0 strip
 zones

With a member whose size is not a multiple of the stripe size an extra
zone was counted and constructing it failed, because no larger device
exists for it.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2216af6..2c4eda3 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -98,7 +98,7 @@ class RAID0Stream(AlignedStream):
                 if idx1 == idx2:
                     break
 
-                if rounded_sizes[dev1] == dev2.size:
+                if rounded_sizes[dev1] == rounded_sizes[dev2]:
                     has_same_size = True
                     break
 
-- 
2.43.0


From e67fc4eaed5141336d641c205fff80afa2e96102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:22 +0000
Subject: [PATCH 04/40] fix: map RAID0 reads in later strip zones to the right
 member and offset

Devices of a zone were looked up by disk index instead of by their
position in the zone, and the part of the devices that earlier zones
already used was not skipped.
---
 dissect/volume/raid/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2c4eda3..05641d4 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -166,12 +166,12 @@ class RAID0Stream(AlignedStream):
             chunk = offset_in_zone // (stripe_size * len(zone.devices))
 
             offset_in_device = (chunk * stripe_size) + offset_in_stripe
-            device_start, device = zone.devices[stripe % len(zone.devices)]
+            device_start, device = list(zone.devices.values())[stripe % len(zone.devices)]
 
             stripe_remaining = stripe_size - offset_in_stripe
             read_length = min(length, stripe_remaining)
 
-            offset_on_disk = device.offset + device_start + offset_in_device
+            offset_on_disk = device.offset + device_start + zone.dev_start + offset_in_device
             device.fh.seek(offset_on_disk)
             result.append(device.fh.read(read_length))
 
-- 
2.43.0


From 2a4391278da94809c0dde9d89a046ca433b2aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:22 +0000
Subject: [PATCH 05/40] fix: honour the original RAID0 layout for sets with
 multiple zones

MD records in the layout field whether later zones rotate over their
devices from the offset in the set (original layout) or from the offset
in the zone (alternate layout). The field was ignored.
---
 dissect/volume/raid/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 05641d4..8129b08 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -159,7 +159,8 @@ class RAID0Stream(AlignedStream):
                 break
 
             read_offset = offset_in_zone
-            if len(self.zones) == 1 or len(self.zones[1].devices) == 1:
+            if len(self.zones) == 1 or len(self.zones[1].devices) == 1 or self.virtual_disk.layout == 1:
+                # RAID0_ORIG_LAYOUT, select the device using the offset in the set instead of the offset in the zone
                 read_offset = offset
 
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
-- 
2.43.0


From f0e8e5520edf8ef28a82582af6afa6295fd6e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:48 +0000
Subject: [PATCH 06/40] fix: open RAID1 sets at the recorded data start of the
 member

The data start recorded for a member was ignored for mirrors, so the
contents were read from the start of the disk instead.
---
 dissect/volume/raid/raid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/raid/raid.py b/dissect/volume/raid/raid.py
index 55d1c6a..c68e246 100644
--- a/dissect/volume/raid/raid.py
+++ b/dissect/volume/raid/raid.py
@@ -69,7 +69,9 @@ class VirtualDisk:
             # Don't really care which mirror to read from, so just open the first disk we have.
             # We don't know if we have the first disk or the n-th disk so we select the first
             # available disk using an iterable.
-            _, (_, disk) = next(iter(self.disk_map.items()))
+            _, (disk_offset, disk) = next(iter(self.disk_map.items()))
+            if disk_offset:
+                return RangeStream(disk.open(), disk_offset, self.size)
             return disk.open()
         if self.level in (Level.RAID4, Level.RAID5, Level.RAID6):
             return RAID456Stream(self)
-- 
2.43.0


From 90ea1eed3f4025ce659a5da7d74a43c47b0b75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:16 +0000
Subject: [PATCH 07/40] fix: resolve every top-level extended MBR partition
 relative to the disk

---
 dissect/volume/disk/schemes/mbr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 7aa56ab..c358a71 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -66,15 +66,13 @@ class MBR:
             part_offset = offset + partition.sector_ofs * self.sector_size
 
             if partition.type in (0x05, 0x0F, 0x85):  # Extended
-                if not ebr_offset:
-                    ebr_offset = part_offset
-                else:
+                if ebr_offset:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
-                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset)
+                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset or part_offset)
 
                 continue
 
-- 
2.43.0


From 44da41bf88ddbecf725c0987d8d816cda9dd840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:16 +0000
Subject: [PATCH 08/40] fix: report protective MBR entries next to nested BSD
 disklabels

---
 dissect/volume/disk/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 183a508..40d12db 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -44,7 +44,7 @@ class Disk:
             else:
                 self.partitions.append(partition)
 
-        if isinstance(self.scheme, MBR) and any(p.type == 0xEE for p in self.partitions):
+        if isinstance(main_scheme, MBR) and any(p.type == 0xEE for p in main_scheme.partitions):
             raise DiskError("Found GPT type partition, but MBR scheme detected. Maybe 4K sector size.")
 
     @property
-- 
2.43.0


From 2fb75d98d14e46cb34ef0bf75577c2351e90a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:47 +0000
Subject: [PATCH 09/40] fix: descend into the covering child for B-tree lookups
 of the next key

With want_high set, internal nodes were also searched for the entry after the
key. The child that actually holds the key was skipped, so stored keys were
reported as absent in every tree with more than one level.
---
 dissect/volume/dm/btree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/dm/btree.py b/dissect/volume/dm/btree.py
index 8cf31b3..e8a2aab 100644
--- a/dissect/volume/dm/btree.py
+++ b/dissect/volume/dm/btree.py
@@ -55,7 +55,8 @@ class BTree:
                 else:
                     high = mid
             else:
-                result = high if want_high else low
+                # Only leaf nodes have a next key, children of internal nodes cover everything from their own key on
+                result = high if want_high and node.is_leaf else low
 
             if result < 0 or result >= node.num_entries:
                 return None, None
-- 
2.43.0


From 758ae462848efacd42d042ae064159fff7f057d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:01 +0000
Subject: [PATCH 10/40] fix: read the thin-pool superblock from the start of
 the metadata device

---
 dissect/volume/dm/thin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index fe18550..f342fc1 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -35,6 +35,7 @@ class Metadata:
 
     def __init__(self, fh: BinaryIO):
         self.fh = fh
+        self.fh.seek(0)
         self.sb = c_dm.thin_disk_superblock(fh)
         if self.sb.magic != c_dm.THIN_SUPERBLOCK_MAGIC:
             raise DMError("Invalid magic for thin-pool metadata superblock")
-- 
2.43.0


From 3aa5788bac9b70273e9695f82919d10f54fdec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:25 +0000
Subject: [PATCH 11/40] fix: return zeroes only for the unmapped blocks of a
 thin device read

---
 dissect/volume/dm/thin.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index f342fc1..c7062e8 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -76,23 +76,20 @@ class ThinDevice(AlignedStream):
 
         result = []
         while length > 0:
+            read_size = min(length, self.block_size)
+
             block_info = data_mapping.lookup([self.device_id, block])
             if block_info is None:
-                remaining = length
-                if self.size is None or (remaining := self.size - offset) > 0:
-                    return b"\x00" * min(length, remaining)
-
-                break
+                # Unmapped blocks read as zeroes
+                result.append(b"\x00" * read_size)
+            else:
+                block_time = int.from_bytes(block_info, "little")
+                data_block, _ = _unpack_block_time(block_time)
 
-            block_time = int.from_bytes(block_info, "little")
-            data_block, _ = _unpack_block_time(block_time)
-
-            read_size = min(length, self.block_size)
-            data_fh.seek(data_block * self.block_size)
-            result.append(data_fh.read(read_size))
+                data_fh.seek(data_block * self.block_size)
+                result.append(data_fh.read(read_size))
 
             length -= read_size
-            offset += read_size
             block += 1
 
         return b"".join(result)
-- 
2.43.0


From 32c491eb9b37dc85ddb8f58feea82bd3c9062ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:57 +0000
Subject: [PATCH 12/40] fix: take the MD update time from the update timestamp

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 6d9ecf4..8d3618e 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -132,7 +132,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.raid_disk = self.sb.disks[self.dev_number].raid_disk
 
         self.creation_time = _parse_ts(self.sb.ctime)
-        self.update_time = _parse_ts(self.sb.ctime)
+        self.update_time = _parse_ts(self.sb.utime)
         self.level = self.sb.level
         self.layout = self.sb.layout
         self.raid_disks = self.sb.raid_disks
-- 
2.43.0


From ba45bd8e5935503867fbdd102b9beb4d84136e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:57 +0000
Subject: [PATCH 13/40] fix: look for MD version 1.0 superblocks at 4K aligned
 positions

---
 dissect/volume/md/md.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 8d3618e..993bd96 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -160,8 +160,8 @@ def find_super_block(fh: BinaryIO) -> tuple[int | None, int | None, int | None]:
         # 0.90.0
         (size & ~(c_md.MD_RESERVED_SECTORS - 1)) - c_md.MD_RESERVED_SECTORS,
         # Major version 1
-        # 0: At least 8K, but less than 12K, from end of device
-        size - 8 * 2,
+        # 0: At least 8K, but less than 12K, from end of device, aligned to 4K
+        (size - 8 * 2) & ~(4 * 2 - 1),
         # 1: At start of device
         0,
         # 2: 4K from start of device.
-- 
2.43.0


From f7e5e045168b87d7a7b8399b00ed04694a543e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:57 +0000
Subject: [PATCH 14/40] fix: decode the level of version 0.90 MD superblocks as
 signed

---
 dissect/volume/md/c_md.py  | 2 +-
 dissect/volume/md/c_md.pyi | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/md/c_md.py b/dissect/volume/md/c_md.py
index a46e868..7924de1 100644
--- a/dissect/volume/md/c_md.py
+++ b/dissect/volume/md/c_md.py
@@ -85,7 +85,7 @@ typedef struct mdp_superblock_s {
     uint32  gvalid_words;                           /*  4 Number of used words in this section */
     char    set_uuid0[4];                           /*  5 Raid set identifier */
     uint32  ctime;                                  /*  6 Creation time */
-    uint32  level;                                  /*  7 Raid personality */
+    int32   level;                                  /*  7 Raid personality */
     uint32  size;                                   /*  8 Apparent size of each individual disk */
     uint32  nr_disks;                               /*  9 total disks in the raid set */
     uint32  raid_disks;                             /* 10 disks in a fully functional raid set */
diff --git a/dissect/volume/md/c_md.pyi b/dissect/volume/md/c_md.pyi
index 75b290b..a4de4c4 100644
--- a/dissect/volume/md/c_md.pyi
+++ b/dissect/volume/md/c_md.pyi
@@ -77,7 +77,7 @@ class _c_md(__cs__.cstruct):
         gvalid_words: _c_md.uint32
         set_uuid0: __cs__.CharArray
         ctime: _c_md.uint32
-        level: _c_md.uint32
+        level: _c_md.int32
         size: _c_md.uint32
         nr_disks: _c_md.uint32
         raid_disks: _c_md.uint32
@@ -143,7 +143,7 @@ class _c_md(__cs__.cstruct):
             gvalid_words: _c_md.uint32 | None = ...,
             set_uuid0: __cs__.CharArray | None = ...,
             ctime: _c_md.uint32 | None = ...,
-            level: _c_md.uint32 | None = ...,
+            level: _c_md.int32 | None = ...,
             size: _c_md.uint32 | None = ...,
             nr_disks: _c_md.uint32 | None = ...,
             raid_disks: _c_md.uint32 | None = ...,
-- 
2.43.0


From 46ee93afddde413f5688f591ef8ee514bd9d8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:57 +0000
Subject: [PATCH 15/40] fix: give MD journal devices and devices without a role
 entry no data role

---
 dissect/volume/md/md.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 993bd96..ccff07c 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -111,13 +111,12 @@ class MDPhysicalDisk(PhysicalDisk):
             self.dev_number = self.sb.dev_number
             self.device_uuid = UUID(bytes_le=self.sb.device_uuid)
 
-            role = self.sb.dev_roles[self.sb.dev_number]
-            if role == c_md.MD_DISK_ROLE_JOURNAL:
-                self.raid_disk = 0
-            elif role <= c_md.MD_DISK_ROLE_MAX:
-                self.raid_disk = role
-            else:
-                self.raid_disk = None
+            # Only regular roles are data members, so no spare, faulty or journal devices
+            self.raid_disk = None
+            if self.sb.dev_number < self.sb.max_dev:
+                role = self.sb.dev_roles[self.sb.dev_number]
+                if role <= c_md.MD_DISK_ROLE_MAX:
+                    self.raid_disk = role
 
         else:
             self.set_uuid = UUID(bytes_le=self.sb.set_uuid0 + self.sb.set_uuid1 + self.sb.set_uuid2 + self.sb.set_uuid3)
-- 
2.43.0


From 56ebf1e4ef8860e085594f93096ff2bacbb807b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:57 +0000
Subject: [PATCH 16/40] fix: give spare and faulty devices of version 0.90 MD
 sets no data role

---
 dissect/volume/md/md.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index ccff07c..f4e9524 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -128,7 +128,15 @@ class MDPhysicalDisk(PhysicalDisk):
             self.data_size = sb_offset
             self.dev_number = self.sb.this_disk.number
             self.device_uuid = None
-            self.raid_disk = self.sb.disks[self.dev_number].raid_disk
+
+            # Only devices that are in sync (or being reshaped) are data members, so no spare or faulty devices
+            disk = self.sb.disks[self.dev_number]
+            self.raid_disk = None
+            if not disk.state & (1 << c_md.MD_DISK_FAULTY) and (
+                disk.state & (1 << c_md.MD_DISK_SYNC)
+                or (disk.state & (1 << c_md.MD_DISK_ACTIVE) and self.sb.minor_version >= 91)
+            ):
+                self.raid_disk = disk.raid_disk
 
         self.creation_time = _parse_ts(self.sb.ctime)
         self.update_time = _parse_ts(self.sb.utime)
-- 
2.43.0


From 8e4a6740e4d38d5c5bf06d43a405d376dbc79ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:23 +0000
Subject: [PATCH 17/40] fix: accept MD sets with devices that have no data role

---
 dissect/volume/md/md.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index f4e9524..648e2d6 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -38,7 +38,8 @@ class MD(RAID):
 
 class MDConfiguration(Configuration):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        physical_disks = sorted(physical_disks, key=operator.attrgetter("raid_disk"))
+        # Devices without a role in the array (such as spares) go last
+        physical_disks = sorted(physical_disks, key=lambda disk: (disk.raid_disk is None, disk.raid_disk))
 
         if len({disk.set_uuid for disk in physical_disks}) != 1:
             raise ValueError("Multiple MD sets detected, supply only the disks of a single set")
-- 
2.43.0


From 662f31addae95f35cb4411aaf53e9833f1f2196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:29 +0000
Subject: [PATCH 18/40] fix: size MD RAID0 sets with a chunk size that is not a
 power of two

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 648e2d6..2beb6f3 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -58,7 +58,7 @@ class MDVirtualDisk(VirtualDisk):
         elif reference_disk.level == Level.RAID0:
             size = 0
             for _, disk in disk_map.values():
-                size += disk.size & ~(reference_disk.chunk_size - 1)
+                size += (disk.size // reference_disk.chunk_size) * reference_disk.chunk_size
         elif reference_disk.level in (Level.RAID1, Level.RAID4, Level.RAID5, Level.RAID6, Level.RAID10):
             size = reference_disk.sb.size * SECTOR_SIZE
         else:
-- 
2.43.0


From 651f8329405a7dc291164ed32fc74b106f903685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:23 +0000
Subject: [PATCH 19/40] fix: read DDF configuration records after an unused
 slot

An unused slot did not advance the offset, so the same slot was read over and
over and all following configuration records were lost.
---
 dissect/volume/ddf/ddf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7dcb0b1..684fb6a 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -294,11 +294,12 @@ def _read_virtual_disk_configuration_records(
         fh.seek(offset)
         obj = VirtualDiskConfigurationRecord(fh, num_entries)
 
+        offset += size
+
         if obj.header.Signature != c_ddf.DDF_VDCR_SIGNATURE:
             continue
 
         result.append(obj)
-        offset += size
 
     return result
 
-- 
2.43.0


From 5eb3f49a7292b03c0cdc05f96196084ba34a904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:23 +0000
Subject: [PATCH 20/40] fix: report invalid DDF section headers

Building the error message raised AttributeError instead of the DDFError.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 684fb6a..08a3cb6 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -270,7 +270,7 @@ def _read_section_header(
 ) -> c_ddf.Physical_Disk_Records | c_ddf.Virtual_Disk_Records | c_ddf.Controller_Data | c_ddf.Physical_Disk_Data:
     obj = structure(fh)
     if obj.Signature != signature:
-        raise DDFError(f"Invalid {structure.name} header. Signature: {obj.Signature:#010x}, expected {signature:#x}")
+        raise DDFError(f"Invalid {structure.__name__} header. Signature: {obj.Signature:#010x}, expected {signature:#x}")
     return obj
 
 
-- 
2.43.0


From c867d89e781e34342b7ba835f4cc244dee68df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:23 +0000
Subject: [PATCH 21/40] fix: use the right flag for Unicode DDF virtual disk
 names

Bit 1 is the enforce-group flag, so Unicode names were decoded as ASCII and
raised UnicodeDecodeError.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 08a3cb6..f75ed6b 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -229,7 +229,7 @@ class VirtualDiskRecord:
         self.state = self.header.VD_State
         self.init_state = self.header.Init_State
         name = self.header.VD_Name.split(b"\x00")[0]
-        self.name = name.decode(encoding="utf-8") if self.type & 0x02 else name.decode(encoding="ascii")
+        self.name = name.decode(encoding="utf-8") if self.type & c_ddf.DDF_VDE_UNICODE_NAME else name.decode(encoding="ascii")
 
     def __repr__(self) -> str:
         return f"<VirtualDiskRecord guid={self.guid} number={self.number} type={self.type:#x} name={self.name!r}>"
-- 
2.43.0


From 7323c18c85067046be51e555baccb8c1e7db2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:23 +0000
Subject: [PATCH 22/40] fix: refuse unsupported DDF RAID10 layouts

Spanned or striped mirrors with any other number of copies were accepted
without a layout.
---
 dissect/volume/ddf/ddf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index f75ed6b..0e0dd28 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -326,6 +326,8 @@ def _convert_raid_layout(prl: int, rlq: int, srl: int, pec: int, sec: int) -> tu
             layout = 0x102  # 2 near copies, 1 far copy
         elif num_disks == 3 and rlq == c_ddf.DDF_VDCR_RAID1_MULTI:
             layout = 0x103  # 3 near copies, 1 far copy
+        else:
+            raise ValueError(f"Unsupported DDF RAID1 layout: ({prl}, {rlq})")
 
         num_disks *= sec
         level = Level.RAID10
-- 
2.43.0


From 750cb891e0c6c66a543b03a53b6bbc15d243454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:23 +0000
Subject: [PATCH 23/40] fix: convert DDF starting blocks to bytes

The data offset of a member is in bytes, but the starting block was used as is.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 0e0dd28..31eb4bb 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -66,7 +66,7 @@ class DDFConfiguration(Configuration):
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
                 if matched_pd := pd_map.get(pds):
-                    vd_pd_map[sec * count + i] = (starting_block, matched_pd)
+                    vd_pd_map[sec * count + i] = (starting_block * matched_pd.block_size, matched_pd)
 
                 if pds != 0xFFFFFFFF:
                     i += 1
-- 
2.43.0


From 39f26886eb534809780ba7beda6db44127abaed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:40 +0000
Subject: [PATCH 24/40] fix: place DDF members after an unused element

Unused elements can be in between the used ones, but only the first
Primary_Element_Count elements were looked at, so the last members of such a
virtual disk were never placed.
---
 dissect/volume/ddf/ddf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 31eb4bb..d8c13f7 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -65,6 +65,9 @@ class DDFConfiguration(Configuration):
 
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
+                if i == count:
+                    break
+
                 if matched_pd := pd_map.get(pds):
                     vd_pd_map[sec * count + i] = (starting_block * matched_pd.block_size, matched_pd)
 
@@ -254,8 +257,8 @@ class VirtualDiskConfigurationRecord:
         self.block_size = self.header.Block_Size
         self.rotate_parity_count = self.header.Rotate_Parity_Count
 
-        self.physical_disk_sequence = c_ddf.uint32[num_entries](fh)[: self.primary_element_count]
-        self.starting_block = c_ddf.uint64[num_entries](fh)[: self.primary_element_count]
+        self.physical_disk_sequence = c_ddf.uint32[num_entries](fh)
+        self.starting_block = c_ddf.uint64[num_entries](fh)
 
     def __repr__(self) -> str:
         return f"<VirtualDiskConfigurationRecord guid={self.guid}>"
-- 
2.43.0


From 1e0f7ef9379a0e080c2083db0d06248e9b0de85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:53 +0000
Subject: [PATCH 25/40] fix: read LVM metadata that wraps around in its area

The metadata area is a circular buffer. Text that reaches the end of the area
continues behind the area header, but was read past the end of the area.
---
 dissect/volume/lvm/physical.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 17ba161..7f06a88 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -70,8 +70,15 @@ class LVM2Device:
         # Unsure when a second area is used
         mda_header, raw_locn = self._metadata_areas[0]
 
+        # The metadata area is a circular buffer, text that does not fit continues directly after the header
+        wrap = max(0, raw_locn[0].offset + raw_locn[0].size - 1 - mda_header.size)
+
         self.fh.seek(mda_header.start + raw_locn[0].offset)
-        return parse_metadata(self.fh.read(raw_locn[0].size - 1).decode())
+        buf = self.fh.read(raw_locn[0].size - 1 - wrap)
+        if wrap:
+            self.fh.seek(mda_header.start + SECTOR_SIZE)
+            buf += self.fh.read(wrap)
+        return parse_metadata(buf.decode())
 
     def read_sectors(self, sector: int, count: int) -> bytes:
         r = []
-- 
2.43.0


From e3f082ca922d16e54f915ead459a2c8fae785505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:53 +0000
Subject: [PATCH 26/40] fix: skip LVM metadata areas that are empty or ignored

An area without metadata raised IndexError, and an area marked as ignored was
used although its content is not current.
---
 dissect/volume/lvm/physical.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 7f06a88..8614b83 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -66,9 +66,12 @@ class LVM2Device:
         if not self._metadata_areas:
             return None
 
-        # Only support the first metadata area for now
-        # Unsure when a second area is used
-        mda_header, raw_locn = self._metadata_areas[0]
+        # Use the first metadata area that is in use
+        for mda_header, raw_locn in self._metadata_areas:
+            if raw_locn and not raw_locn[0].flags & c_lvm.RAW_LOCN_IGNORED:
+                break
+        else:
+            return None
 
         # The metadata area is a circular buffer, text that does not fit continues directly after the header
         wrap = max(0, raw_locn[0].offset + raw_locn[0].size - 1 - mda_header.size)
-- 
2.43.0


From cf357dbaf73bcd2daab402dc87cb96ba370e7728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:53 +0000
Subject: [PATCH 27/40] fix: use the LVM metadata of any physical volume

Physical volumes can be without metadata. If the first one was, opening the
volume group raised TypeError.
---
 dissect/volume/lvm/lvm2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/lvm2.py b/dissect/volume/lvm/lvm2.py
index f49e428..a08ff3e 100644
--- a/dissect/volume/lvm/lvm2.py
+++ b/dissect/volume/lvm/lvm2.py
@@ -28,7 +28,10 @@ class LVM2:
         devices = [LVM2Device(fh) if not isinstance(fh, LVM2Device) else fh for fh in self.fh]
         self.devices = {device.id: device for device in devices}
 
-        self.metadata = devices[0].metadata
+        self.metadata = next((device.metadata for device in devices if device.metadata), None)
+        if self.metadata is None:
+            raise LVM2Error("Can't find metadata on any of the physical volumes")
+
         self.contents: str = self.metadata["contents"]
         self.version: int = self.metadata["version"]
         self.description: str | None = self.metadata.get("description")
-- 
2.43.0


From c4264e2f6761560bc0e80b82cd7dc210d359ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:53 +0000
Subject: [PATCH 28/40] fix: remove LVM metadata comments correctly

An empty comment removed the following line as well, and comments that contain
a quote were not removed.
---
 dissect/volume/lvm/physical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 8614b83..164d8a9 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -123,7 +123,8 @@ def parse_metadata(string: str) -> dict:
     current = root
     parents = {}
 
-    s = re.sub(r"(#[^\"]+?)$", "", string, flags=re.MULTILINE)
+    # Remove comments, but leave quoted strings alone
+    s = re.sub(r'("(?:[^"\\]|\\.)*")|#.*', r"\1", string)
 
     it = iter(s.split("\n"))
     for line in it:
-- 
2.43.0


From d0baee4d4c1ca560d03aece76bf95c5feb962091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:53 +0000
Subject: [PATCH 29/40] fix: parse LVM metadata lists with blank lines or
 trailing spaces

A blank line in a list raised IndexError, and blanks after the closing bracket
made the list run on.
---
 dissect/volume/lvm/physical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 164d8a9..b295e12 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -161,8 +161,9 @@ def _parse_key_value(s: str, it: Iterator[str]) -> tuple[str, Any]:
     if value[0] == "[" and value[-1] != "]":
         lines = [value]
         for line in it:
+            line = line.strip()
             lines.append(line)
-            if line[-1] == "]":
+            if line.endswith("]"):
                 break
         value = "".join(lines)
 
-- 
2.43.0


From faedc89c56fef7164176905ba85abcaba6faff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:53 +0000
Subject: [PATCH 30/40] fix: parse LVM volume groups without logical volumes

The section is not written if there are no logical volumes, and its absence
raised KeyError.
---
 dissect/volume/lvm/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 700d5f6..35c2ec9 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -56,7 +56,7 @@ class VolumeGroup(MetaBase):
     max_lv: int
     max_pv: int
     physical_volumes: dict[str, PhysicalVolume]
-    logical_volumes: dict[str, LogicalVolume]
+    logical_volumes: dict[str, LogicalVolume] | None
 
     system_id: str | None
     allocation_policy: str | None
-- 
2.43.0


From e5ec51fd9024b1e143125a591563248b6f16467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:53 +0000
Subject: [PATCH 31/40] fix: make the optional fields of LVM RAID segments
 optional

Most of these are only written for some RAID types or if they are set, so
volume groups with a RAID volume raised KeyError.
---
 dissect/volume/lvm/metadata.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 35c2ec9..b3fe85d 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -595,13 +595,13 @@ class VdoPoolSegment(Segment):
 
 @dataclass(init=False)
 class RAIDSegment(Segment):
-    device_count: int
-    stripe_count: int
-    region_size: int
-    stripe_size: int
-    writebehind: int
-    min_recovery_rate: int
-    max_recovery_rate: int
+    device_count: int | None
+    stripe_count: int | None
+    region_size: int | None
+    stripe_size: int | None
+    writebehind: int | None
+    min_recovery_rate: int | None
+    max_recovery_rate: int | None
 
     data_copies: int | None
     data_offset: int | None
-- 
2.43.0


From dba9a034d92580701c1ea03a69b1c922739fd56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:53 +0000
Subject: [PATCH 32/40] fix: use the start extent of LVM mirror segments

All segments of a mirrored volume were read from the start of the mirror image.
---
 dissect/volume/lvm/metadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index b3fe85d..443bd37 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -7,7 +7,7 @@ from types import UnionType
 from typing import TYPE_CHECKING, BinaryIO, get_args, get_origin, get_type_hints
 
 from dissect.util import ts
-from dissect.util.stream import MappingStream
+from dissect.util.stream import MappingStream, RangeStream
 
 from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
@@ -408,10 +408,11 @@ class MirrorSegment(Segment):
 
     def open(self) -> BinaryIO:
         # Just open the first mirror we can
-        for lv_name, _ in self.mirrors:
+        extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
+        for lv_name, extent_offset in self.mirrors:
             try:
                 lv = self._logical_volume._volume_group.logical_volumes[lv_name]
-                return lv.open()
+                return RangeStream(lv.open(), extent_offset * extent_size, self.extent_count * extent_size)
             except Exception:  # noqa: PERF203
                 pass
         else:
-- 
2.43.0


From dcaf73b5613496a75c81b7c9e1f7baa55dc6c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:53 +0000
Subject: [PATCH 33/40] fix: interleave the stripes of LVM striped segments

Stripes were concatenated, and the stripe size was taken as a number of extents
although it is in sectors.
---
 dissect/volume/lvm/metadata.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 443bd37..03fe068 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -13,6 +13,8 @@ from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
 from dissect.volume.lvm.c_lvm2 import SECTOR_SIZE
 from dissect.volume.lvm.physical import LVM2Device  # noqa: TC001
+from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
+from dissect.volume.raid.stream import Level
 
 if TYPE_CHECKING:
     from dissect.util.stream import RunlistStream
@@ -371,7 +373,24 @@ class StripedSegment(Segment):
     stripe_size: int | None
     stripes: list[tuple[str, int]]
 
+    def _open_striped(self) -> BinaryIO:
+        vg = self._logical_volume._volume_group
+        extent_size = vg.extent_size * SECTOR_SIZE
+        size = self.extent_count * extent_size
+        num_stripes = len(self.stripes)
+
+        disk_map = {}
+        for i, (pv_name, extent_offset) in enumerate(self.stripes):
+            pv_fh = vg.physical_volumes[pv_name].open()
+            disk_map[i] = (0, PhysicalDisk(pv_fh, extent_offset * extent_size, size // num_stripes))
+
+        stripe_size = self.stripe_size * SECTOR_SIZE
+        return VirtualDisk(self.name, None, size, Level.RAID0, 0, stripe_size, num_stripes, disk_map).open()
+
     def open(self) -> BinaryIO:
+        if len(self.stripes) > 1:
+            return self._open_striped()
+
         stream = MappingStream()
         pv = self._logical_volume._volume_group.physical_volumes
         extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
-- 
2.43.0


From 1c83ce66bcfad6616c3522e1d15ab79e7661674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:11 +0000
Subject: [PATCH 34/40] fix: use the drive offset of Vinum subdisks

A drive can hold subdisks of several volumes. All of them were read from
the start of the data section of the drive.
---
 dissect/volume/vinum/vinum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 721021e..0d53ff1 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -176,7 +176,9 @@ class VinumConfiguration(Configuration):
                         sd.state != SDState.DOWN and sd.state != SDState.DEGRADED and sd.state != SDState.INITIALIZING
                     ):  # sd's in these states are probably not fit to use
                         if sd.drive in disks_by_name:
-                            disk_map[idx] = (0, disks_by_name[sd.drive])
+                            # The driveoffset is relative to the start of the drive, the disk map to its data section
+                            disk = disks_by_name[sd.drive]
+                            disk_map[idx] = (max(0, (sd.driveoffset or 0) - disk.offset), disk)
                         else:
                             log.warning("Physical disk %r for sd %r is missing, ignoring sd", sd.drive, sd.name)
                     else:
-- 
2.43.0


From 9464dc3572c5402b660b0f357b8977b8b156080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:12 +0000
Subject: [PATCH 35/40] fix: concatenate Vinum subdisks by their length

The size of the whole drive was used instead, so everything behind the
first subdisk of a concatenated plex was read from the wrong place.
---
 dissect/volume/vinum/vinum.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 0d53ff1..7cba1b4 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -18,7 +18,7 @@ from dissect.volume.raid.raid import (
     PhysicalDisk,
     VirtualDisk,
 )
-from dissect.volume.raid.stream import Layout, Level
+from dissect.volume.raid.stream import Layout, Level, LinearStream
 from dissect.volume.vinum.c_vinum import MAGIC_ACTIVE, MAGIC_INACTIVE, c_vinum
 from dissect.volume.vinum.config import (
     PlexOrg,
@@ -282,6 +282,19 @@ class VinumPlexDisk(VirtualDisk):
             disk_map,
         )
 
+    def open(self) -> BinaryIO:
+        if self.level == Level.LINEAR:
+            # The subdisks are only a part of their drives, so map those parts
+            sds = sorted(self.sds, key=lambda sd: sd.plexoffset)
+            disk_map = {
+                idx: (0, PhysicalDisk(disk.fh, disk.offset + disk_offset, sds[idx].length))
+                for idx, (disk_offset, disk) in self.disk_map.items()
+            }
+            return LinearStream(
+                VirtualDisk(self.name, self.uuid, self.size, self.level, self.layout, 0, self.num_disks, disk_map)
+            )
+        return super().open()
+
 
 class VinumMirrorDisk(VirtualDisk):
     def __init__(
-- 
2.43.0


From a9fe9f26b6ea8cdb38cd9d813e165c31d7ed9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:30 +0000
Subject: [PATCH 36/40] fix: accept VSS stores without a previous bitmap

An offset of zero means there is no previous bitmap. The start of the
volume was read as one, which failed with an invalid identifier.
---
 dissect/volume/vss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 9d3cf94..33570fe 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -305,7 +305,9 @@ class Store:
         return StoreBitmap(self, self.desc3.store_bitmap_offset)
 
     @cached_property
-    def previous_bitmap(self) -> StoreBitmap:
+    def previous_bitmap(self) -> StoreBitmap | None:
+        if self.desc3.store_previous_bitmap_offset == 0:
+            return None
         return StoreBitmap(self, self.desc3.store_previous_bitmap_offset)
 
     def read_block(self, block: int, active_store: Store | None = None) -> bytes:
-- 
2.43.0


From 232bd906c38030efe8af86923b038e088554a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:30 +0000
Subject: [PATCH 37/40] fix: read all blocks of a VSS block list

An unused entry ended the whole list, also when it was only the end of a
partially filled block that has a next block.
---
 dissect/volume/vss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 33570fe..ddc4734 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -471,7 +471,7 @@ class BlockList:
         for entry_offset in range(0, len(data), STORE_BLOCKLIST_ENTRY_SIZE):
             entry_buf = buf[entry_offset : entry_offset + STORE_BLOCKLIST_ENTRY_SIZE]
             if entry_buf == b"\x00" * STORE_BLOCKLIST_ENTRY_SIZE:
-                break
+                continue
             entry = BlockDescriptor(entry_buf)
             # self.entries.append(entry)
             self.map.add(entry)
-- 
2.43.0


From 4ed0e567cf9d250961566034a55aed78c0261e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:30 +0000
Subject: [PATCH 38/40] fix: refuse VSS records of the wrong type

The type of the volume header, the catalog, store headers and chained
blocks was not checked.
---
 dissect/volume/vss.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index ddc4734..807201d 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -179,6 +179,9 @@ class VSS:
                 f"Not a valid VSS identifier (got {self.header.identifier.hex()}, expected {VSS_IDENTIFIER.hex()}"
             )
 
+        if self.header.record_type != RECORD_TYPE.VOLUME_HEADER:
+            raise Error(f"invalid record type for volume header (got 0x{self.header.record_type:x})")
+
         if self.header.catalog_offset == 0:
             raise Error("Catalog offset is 0")
 
@@ -203,6 +206,9 @@ class Catalog:
         self.vss = vss
         self.fh = vss.fh
         self.header, data = read_block(vss.fh, offset, c_vss.catalog_header)
+        if self.header.record_type != RECORD_TYPE.CATALOG:
+            raise Error(f"invalid record type for catalog (got 0x{self.header.record_type:x})")
+
         buf = memoryview(data)
 
         store_map = defaultdict(list)
@@ -279,6 +285,9 @@ class Store:
                 f"Not a valid VSS identifier (got {self.header.identifier.hex()}, expected {VSS_IDENTIFIER.hex()}"
             )
 
+        if self.header.record_type != RECORD_TYPE.STORE_HEADER:
+            raise Error(f"invalid record type for store header (got 0x{self.header.record_type:x})")
+
         self.information = c_vss.store_information(self.fh)
 
         self.copy_identifier = uuid.UUID(bytes_le=self.information.copy_identifier)
@@ -658,6 +667,10 @@ def read_block(fh: BinaryIO, offset: int, struct: type[Structure]) -> tuple[Stru
     offset = header.next_offset
     while offset != 0:
         nheader, buf = read_block_data(fh, offset, struct)
+        if nheader.record_type != header.record_type:
+            raise Error(
+                f"invalid record type in chained block (got {nheader.record_type}, expected {header.record_type})"
+            )
         offset = nheader.next_offset
         r.append(buf)
 
-- 
2.43.0


From 8cbe71eff5e26b6f4fd6971cb3151ca5f3d8979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:30 +0000
Subject: [PATCH 39/40] fix: read VSS range lists of more than one block

The size of a block is not a multiple of the size of an entry, so the
entries of all blocks but the first were read from a wrong offset.
---
 dissect/volume/vss.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 807201d..9d95fba 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -502,12 +502,16 @@ class RangeList:
 
         buf = memoryview(data)
         self.entries = []
-        for entry_offset in range(0, len(data), STORE_RANGELIST_ENTRY_SIZE):
-            entry_buf = buf[entry_offset : entry_offset + STORE_RANGELIST_ENTRY_SIZE]
-            if entry_buf == b"\x00" * STORE_RANGELIST_ENTRY_SIZE:
-                break
-            entry = c_vss.range_descriptor(entry_buf)
-            self.entries.append(entry)
+        # Entries don't cross the end of a block, which leaves a few bytes unused
+        block_size = STORE_BLOCK_SIZE - len(c_vss.store_header)
+        for block_offset in range(0, len(data), block_size):
+            block_end = block_offset + block_size - STORE_RANGELIST_ENTRY_SIZE + 1
+            for entry_offset in range(block_offset, block_end, STORE_RANGELIST_ENTRY_SIZE):
+                entry_buf = buf[entry_offset : entry_offset + STORE_RANGELIST_ENTRY_SIZE]
+                if entry_buf == b"\x00" * STORE_RANGELIST_ENTRY_SIZE:
+                    break
+                entry = c_vss.range_descriptor(entry_buf)
+                self.entries.append(entry)
 
 
 class StoreBitmap:
-- 
2.43.0


From dcafdc41ede1e6171fe612944db66d6be8b4f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:54 +0000
Subject: [PATCH 40/40] fix: concatenate DDF elements by their recorded length

The size of the whole physical disk was used instead, so everything
behind the first element of a concatenated virtual disk was read from
the wrong place.
---
 dissect/volume/ddf/ddf.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index d8c13f7..a66555f 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -13,7 +13,7 @@ from dissect.volume.raid.raid import (
     PhysicalDisk,
     VirtualDisk,
 )
-from dissect.volume.raid.stream import Layout, Level
+from dissect.volume.raid.stream import Layout, Level, LinearStream
 
 if TYPE_CHECKING:
     from dissect.volume.raid.raid import (
@@ -111,6 +111,21 @@ class DDFVirtualDisk(VirtualDisk):
             disks,
         )
 
+    def open(self) -> BinaryIO:
+        if self.level == Level.LINEAR:
+            # The elements are only a part of their disks, and each disk records the length of its own element
+            disk_map = {}
+            for idx, (disk_offset, disk) in self.disk_map.items():
+                block_count = next(
+                    (vdcr.block_count for vdcr in disk.virtual_disk_configuration_records if vdcr.guid == self.vdcr.guid),
+                    self.vdcr.block_count,
+                )
+                disk_map[idx] = (0, PhysicalDisk(disk.fh, disk.offset + disk_offset, block_count * disk.block_size))
+            return LinearStream(
+                VirtualDisk(self.name, self.uuid, self.size, self.level, self.layout, 0, self.num_disks, disk_map)
+            )
+        return super().open()
+
     @property
     def virtual_disk_configuration_record(self) -> VirtualDiskConfigurationRecord:
         return self.vdcr
@@ -253,6 +268,7 @@ class VirtualDiskConfigurationRecord:
         self.secondary_element_count = self.header.Secondary_Element_Count
         self.secondary_element_seq = self.header.Secondary_Element_Seq
         self.secondary_raid_level = self.header.Secondary_RAID_Level
+        self.block_count = self.header.Block_Count
         self.size = self.header.VD_Size
         self.block_size = self.header.Block_Size
         self.rotate_parity_count = self.header.Rotate_Parity_Count
-- 
2.43.0

