--------------------------- MODULE Ext4Superblock ---------------------------
(* The ext4 superblock and group descriptors, from Linux's fs/ext4/ext4.h.     *)
EXTENDS Ext4Image, Crc32c

Compat(b, k) == Bit(b, 92, k)
Incompat(b, k) == Bit(b, 96, k)
RoCompat(b, k) == Bit(b, 100, k)
Is64Bit(b) == Incompat(b, 7)
MetadataChecksums(b) == RoCompat(b, 10)
BigAlloc(b) == RoCompat(b, 9)

Magic == 61267                            \* 0xef53
LogBlockSize(b) == Le(b, 24, 4)
\* The superblock's 1024 bytes can be trusted
ValidSb(b) ==
  /\ U16(b, 56) = Magic
  /\ WLe(LogBlockSize(b), WOf(6))
  /\ BigAlloc(b) \/ Le(b, 28, 4) = LogBlockSize(b)
  /\ WLt(Le(b, 28, 4), WOf(53))
  /\ BigAlloc(b) \/ Le(b, 36, 4) = Le(b, 32, 4)
  /\ U16(b, 60) \in 1..3
  /\ B(b, 372) < 63
  /\ B(b, 373) \in {0, 1}
  /\ MetadataChecksums(b) => B(b, 373) = 1 /\ PairAt(b, 1020) = Crc(Ones32, Slice(b, 0, 1020))

KnownIncompat == {0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16}
DescSize(b) == IF Is64Bit(b) THEN U16(b, 254) ELSE 32
SupportedSb(b) ==
  /\ Le(b, 32, 4) # <<>>                  \* blocks per group
  /\ Le(b, 40, 4) # <<>>                  \* inodes per group
  /\ DescSize(b) # 0
  /\ U16(b, 88) >= 128                    \* inode size
  /\ Le(b, 72, 4) = <<>>                  \* made by Linux
  /\ Incompat(b, 6)                       \* extents
  /\ \A k \in 0..31 : Incompat(b, k) => k \in KnownIncompat

BlockSize(b) == 1024 * 2^WInt(LogBlockSize(b))
LowHigh(b, lo, hi) == WNorm(LeBytes(b, lo, 4) \o LeBytes(b, hi, 4))
BlocksCount(b) == LowHigh(b, 4, 336)
CeilDiv(a, m) == WQuo(WAdd(a, WSub(m, WOne)), m)
\* The number of groups, and the most that may be taken for it: the first data
\* block belongs to no group.
Groups(b) ==
  IF WLe(BlocksCount(b), Le(b, 20, 4)) THEN <<>>
  ELSE CeilDiv(WSub(BlocksCount(b), Le(b, 20, 4)), Le(b, 32, 4))
GroupsMost(b) == CeilDiv(BlocksCount(b), Le(b, 32, 4))
DescTable(b) == WMulS(WAdd(Le(b, 20, 4), WOne), BlockSize(b))

\* The seed of metadata checksums: recorded, or made from the UUID
Seed(b) ==
  IF Incompat(b, 13) THEN PairAt(b, 624)
  ELSE IF MetadataChecksums(b) THEN Crc(Ones32, Slice(b, 104, 16))
  ELSE <<0, 0>>

-----------------------------------------------------------------------------
(* Everything a superblock records, as the fields reported for it *)
RECURSIVE CString(_, _, _)
CString(b, o, n) == IF n = 0 \/ B(b, o) = 0 THEN <<>> ELSE <<B(b, o)>> \o CString(b, o + 1, n - 1)
N(b, o, n) == Le(b, o, n)
Time(b, lo, hi) == WNorm(LeBytes(b, lo, 4) \o <<B(b, hi)>>)
SbFields(b) ==
  [inodes |-> N(b, 0, 4), blocks |-> BlocksCount(b), reserved |-> LowHigh(b, 8, 340),
   free |-> LowHigh(b, 12, 344), free_inodes |-> N(b, 16, 4), first_data |-> N(b, 20, 4),
   block_size |-> WOf(BlockSize(b)),
   cluster_size |-> WPow2(10 + WInt(N(b, 28, 4))),
   bpg |-> N(b, 32, 4), cpg |-> N(b, 36, 4), ipg |-> N(b, 40, 4),
   mount_time |-> Time(b, 44, 629), write_time |-> Time(b, 48, 628),
   mounts |-> N(b, 52, 2), max_mounts |-> N(b, 54, 2), magic |-> N(b, 56, 2),
   state |-> N(b, 58, 2), errors |-> N(b, 60, 2), minor |-> N(b, 62, 2),
   last_check |-> Time(b, 64, 631), interval |-> N(b, 68, 4), os |-> N(b, 72, 4),
   revision |-> N(b, 76, 4), res_uid |-> N(b, 80, 2), res_gid |-> N(b, 82, 2),
   first_inode |-> N(b, 84, 4), inode_size |-> N(b, 88, 2), group_nr |-> N(b, 90, 2),
   compat |-> N(b, 92, 4), incompat |-> N(b, 96, 4), ro_compat |-> N(b, 100, 4),
   uuid |-> Slice(b, 104, 16), volume |-> CString(b, 120, 16), mounted |-> CString(b, 136, 64),
   algo |-> N(b, 200, 4), prealloc |-> N(b, 204, 1), prealloc_dir |-> N(b, 205, 1),
   reserved_gdt |-> N(b, 206, 2), journal_uuid |-> Slice(b, 208, 16),
   journal_inode |-> N(b, 224, 4), journal_dev |-> N(b, 228, 4), orphan |-> N(b, 232, 4),
   hash_seed |-> Slice(b, 236, 16), hash_version |-> N(b, 252, 1), journal_backup |-> N(b, 253, 1),
   desc_size |-> WOf(DescSize(b)), mount_flags |-> N(b, 256, 4), first_meta |-> N(b, 260, 4),
   created |-> Time(b, 264, 630), journal_blocks |-> Slice(b, 268, 68),
   min_extra |-> N(b, 348, 2), want_extra |-> N(b, 350, 2), flags |-> N(b, 352, 4),
   stride |-> N(b, 356, 2), mmp_interval |-> N(b, 358, 2), mmp_block |-> N(b, 360, 8),
   stripe |-> N(b, 368, 4), per_flex |-> WPow2(B(b, 372)), kbytes |-> N(b, 376, 8),
   snap_inode |-> N(b, 384, 4), snap_id |-> N(b, 388, 4), snap_reserved |-> N(b, 392, 8),
   snap_list |-> N(b, 400, 4), error_count |-> N(b, 404, 4),
   first_error |-> << Time(b, 408, 632), N(b, 412, 4), N(b, 416, 8), CString(b, 424, 32), N(b, 456, 4) >>,
   last_error |-> << Time(b, 460, 633), N(b, 464, 4), N(b, 472, 8), CString(b, 480, 32), N(b, 468, 4) >>,
   options |-> CString(b, 512, 64), usr_quota |-> N(b, 576, 4), grp_quota |-> N(b, 580, 4),
   overhead |-> N(b, 584, 4), backups |-> <<N(b, 588, 4), N(b, 592, 4)>>,
   encryption |-> SelectSeq(Slice(b, 596, 4), LAMBDA x : x # 0),
   salt |-> Slice(b, 600, 16), lost_found |-> N(b, 616, 4), prj_quota |-> N(b, 620, 4),
   seed |-> WNorm(PairBytes(Seed(b))),
   encoding |-> N(b, 636, 2), encoding_flags |-> N(b, 638, 2), orphan_file |-> N(b, 640, 4)]

-----------------------------------------------------------------------------
(* Group descriptors: d is 64 bytes, whatever the size on disk *)
Split2(d, lo, hi) == WNorm(LeBytes(d, lo, 2) \o LeBytes(d, hi, 2))
DescFields(d) ==
  [block_bitmap |-> LowHigh(d, 0, 32), inode_bitmap |-> LowHigh(d, 4, 36),
   inode_table |-> LowHigh(d, 8, 40), free_blocks |-> Split2(d, 12, 44),
   free_inodes |-> Split2(d, 14, 46), dirs |-> Split2(d, 16, 48), flags |-> N(d, 18, 2),
   exclude |-> LowHigh(d, 20, 52), block_csum |-> Split2(d, 24, 56),
   inode_csum |-> Split2(d, 26, 58), unused |-> Split2(d, 28, 50), csum |-> N(d, 30, 2)]
DescIn(img, table, ds, g) ==
  At(img, WAdd(table, WMul(WOf(ds), WOf(g))), IF ds < 64 THEN ds ELSE 64)
DescAt(img, b, g) == DescIn(img, DescTable(b), DescSize(b), g)

-----------------------------------------------------------------------------
(* Opening *)
SbAt(img) == At(img, WOf(1024), 1024)
Trusted(img) ==
  IF ~Readable(img, WOf(1024), WOf(1024)) THEN FALSE
  ELSE LET b == SbAt(img) IN IF ~ValidSb(b) THEN FALSE ELSE SupportedSb(b)
DescsReadable(img, b, n) == Readable(img, DescTable(b), WMul(n, WOf(DescSize(b))))
MustOpen(img) == IF ~Trusted(img) THEN FALSE
                 ELSE DescsReadable(img, SbAt(img), GroupsMost(SbAt(img)))
MayOpen(img) == IF ~Trusted(img) THEN FALSE
                ELSE DescsReadable(img, SbAt(img), Groups(SbAt(img)))

\* What the rest of the specification needs of a filesystem opened with a
\* number of groups (see GroupsMost)
FsWith(img, groups) ==
  LET b == SbAt(img) IN
  [bs |-> BlockSize(b), isz |-> U16(b, 88), ipg |-> Le(b, 40, 4), inodes |-> Le(b, 0, 4),
   groups |-> groups, dt |-> DescTable(b), ds |-> DescSize(b),
   seed |-> IF MetadataChecksums(b) THEN <<Seed(b)>> ELSE <<>>]
Fs(img) == FsWith(img, WInt(Groups(SbAt(img))))

OpenOk(img, o) ==
  IF o.s = "ok"
  THEN /\ MayOpen(img)
       /\ LET b == SbAt(img) IN
          /\ o.v.sb = SbFields(b)
          /\ WLe(Groups(b), WOf(o.v.groups)) /\ WLe(WOf(o.v.groups), GroupsMost(b))
          /\ \A k \in 1..Len(o.v.descs) :
               LET d == o.v.descs[k] IN
               WLt(WOf(d.g), Groups(b)) => d = [g |-> d.g] @@ DescFields(DescAt(img, b, d.g))
  ELSE o.s = "err" /\ ~MustOpen(img)
=============================================================================
