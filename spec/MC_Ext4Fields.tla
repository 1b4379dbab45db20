---------------------------- MODULE MC_Ext4Fields ----------------------------
(* Superblocks and group descriptors as their writer declares them: a list of  *)
(* fields, one after the other, each with its width (fs/ext4/ext4.h); where a  *)
(* field is follows from what is before it.  A writer with a value in every    *)
(* field changes the values of one or two of them.  What Ext4Superblock reads  *)
(* are the values written: of halves put together, and nothing else.  Every    *)
(* superblock and its descriptors are a scenario.                              *)
EXTENDS Ext4Build, Json, IOUtils, FiniteSets
CONSTANT Most

SbStruct ==
  << <<"inodes", 4>>, <<"blocks", 4>>, <<"reserved", 4>>, <<"free", 4>>, <<"free_inodes", 4>>, <<"first_data", 4>>,
     <<"log_bs", 4>>, <<"log_cluster", 4>>, <<"bpg", 4>>, <<"cpg", 4>>, <<"ipg", 4>>, <<"mtime", 4>>, <<"wtime", 4>>,
     <<"mounts", 2>>, <<"max_mounts", 2>>, <<"magic", 2>>, <<"state", 2>>, <<"errors", 2>>, <<"minor", 2>>,
     <<"lastcheck", 4>>, <<"interval", 4>>, <<"os", 4>>, <<"revision", 4>>, <<"res_uid", 2>>, <<"res_gid", 2>>,
     <<"first_inode", 4>>, <<"inode_size", 2>>, <<"group_nr", 2>>, <<"compat", 4>>, <<"incompat", 4>>, <<"ro_compat", 4>>,
     <<"uuid", 16>>, <<"volume", 16>>, <<"mounted", 64>>, <<"algo", 4>>, <<"prealloc", 1>>, <<"prealloc_dir", 1>>,
     <<"reserved_gdt", 2>>, <<"journal_uuid", 16>>, <<"journal_inode", 4>>, <<"journal_dev", 4>>, <<"orphan", 4>>,
     <<"hash_seed", 16>>, <<"hash_version", 1>>, <<"journal_backup", 1>>, <<"desc_size", 2>>, <<"mount_flags", 4>>,
     <<"first_meta", 4>>, <<"mkfs", 4>>, <<"journal_blocks", 68>>, <<"blocks_hi", 4>>, <<"reserved_hi", 4>>,
     <<"free_hi", 4>>, <<"min_extra", 2>>, <<"want_extra", 2>>, <<"flags", 4>>, <<"stride", 2>>, <<"mmp_interval", 2>>,
     <<"mmp_block", 8>>, <<"stripe", 4>>, <<"log_flex", 1>>, <<"csum_type", 1>>, <<"encryption_level", 1>>, <<"pad", 1>>,
     <<"kbytes", 8>>, <<"snap_inode", 4>>, <<"snap_id", 4>>, <<"snap_reserved", 8>>, <<"snap_list", 4>>,
     <<"error_count", 4>>, <<"ferr_time", 4>>, <<"ferr_ino", 4>>, <<"ferr_block", 8>>, <<"ferr_func", 32>>,
     <<"ferr_line", 4>>, <<"lerr_time", 4>>, <<"lerr_ino", 4>>, <<"lerr_line", 4>>, <<"lerr_block", 8>>,
     <<"lerr_func", 32>>, <<"options", 64>>, <<"usr_quota", 4>>, <<"grp_quota", 4>>, <<"overhead", 4>>,
     <<"backup0", 4>>, <<"backup1", 4>>, <<"encrypt", 4>>, <<"salt", 16>>, <<"lost_found", 4>>, <<"prj_quota", 4>>,
     <<"seed", 4>>, <<"wtime_hi", 1>>, <<"mtime_hi", 1>>, <<"mkfs_hi", 1>>, <<"lastcheck_hi", 1>>, <<"ferr_time_hi", 1>>,
     <<"lerr_time_hi", 1>>, <<"ferr_code", 1>>, <<"lerr_code", 1>>, <<"encoding", 2>>, <<"encoding_flags", 2>>,
     <<"orphan_file", 4>>, <<"rest", 376>>, <<"checksum", 4>> >>
DescStruct ==
  << <<"block_bitmap", 4>>, <<"inode_bitmap", 4>>, <<"inode_table", 4>>, <<"free_blocks", 2>>, <<"free_inodes", 2>>,
     <<"dirs", 2>>, <<"flags", 2>>, <<"exclude", 4>>, <<"block_csum", 2>>, <<"inode_csum", 2>>, <<"unused", 2>>,
     <<"csum", 2>>, <<"block_bitmap_hi", 4>>, <<"inode_bitmap_hi", 4>>, <<"inode_table_hi", 4>>, <<"free_blocks_hi", 2>>,
     <<"free_inodes_hi", 2>>, <<"dirs_hi", 2>>, <<"unused_hi", 2>>, <<"exclude_hi", 4>>, <<"block_csum_hi", 2>>,
     <<"inode_csum_hi", 2>>, <<"rest", 4>> >>
Width(st, f) == LET k == CHOOSE k \in 1..Len(st) : st[k][1] = f IN st[k][2]
NamesOf(st) == {st[k][1] : k \in 1..Len(st)}
Total(st) == FoldLeft(LAMBDA n, x : n + x[2], 0, st)
ASSUME Total(SbStruct) = 1024 /\ Total(DescStruct) = 64
ASSUME Cardinality(NamesOf(SbStruct)) = Len(SbStruct) /\ Cardinality(NamesOf(DescStruct)) = Len(DescStruct)
Written(st, v) == FoldLeft(LAMBDA b, x : b \o Pad(v[x[1]], x[2]), <<>>, st)

-----------------------------------------------------------------------------
(* Values: something in every field, no two alike *)
Some(st, salt, f) ==
  LET at == CHOOSE k \in 1..Len(st) : st[k][1] = f IN
  SubSeq([k \in 1..Width(st, f) |-> 1 + ((7 * at + 31 * k + 13 * salt) % 255)], 1, Width(st, f))
\* Only these have a say in whether there is a filesystem to look at, and with
\* groups as big as they get there are few of them
Fixed ==
  [magic |-> <<83, 239>>, log_bs |-> <<>>, log_cluster |-> <<>>, bpg |-> Ones(4), cpg |-> Ones(4), errors |-> WOf(2),
   os |-> <<>>, incompat |-> WOf(FeatureExtents), ro_compat |-> <<>>, log_flex |-> WOf(4), csum_type |-> <<>>,
   blocks_hi |-> WOne, first_data |-> WOne, inode_size |-> WOf(256)]
Bases == {"short", "long", "seed", "sum", "clusters"}
Extra(base) ==
  CASE base = "short" -> [inode_size |-> WOf(128)]
    [] base = "long" -> [incompat |-> WOf(FeatureExtents + Feature64Bit), desc_size |-> WOf(64)]
    [] base = "seed" -> [incompat |-> WOf(FeatureExtents + Feature64Bit + FeatureCsumSeed), desc_size |-> WOf(64),
                         ro_compat |-> WOf(1024), csum_type |-> WOne]
    [] base = "sum" -> [ro_compat |-> WOf(1024), csum_type |-> WOne]
    [] base = "clusters" -> [ro_compat |-> WOf(512), log_cluster |-> WOf(9), cpg |-> WOf(5)]
Base(base) == Extra(base) @@ Fixed @@ [f \in NamesOf(SbStruct) |-> Some(SbStruct, 0, f)]
Texts == {"volume", "mounted", "ferr_func", "lerr_func", "options"}
Values(f) ==
  LET w == Width(SbStruct, f) IN
  CASE f \in {"magic", "cpg", "log_cluster", "csum_type", "checksum", "rest"} -> {}
    [] f = "bpg" -> {}
    [] f = "log_bs" -> {}
    [] f = "errors" -> {WOf(1), WOf(3)}
    [] f = "os" -> {}
    [] f = "incompat" -> {}
    [] f = "ro_compat" -> {}
    [] f = "log_flex" -> {WOf(k) : k \in {0, 1, 31, 32, 62}}
    [] f = "blocks_hi" -> {WOf(k) : k \in {0, 2, 4}}
    [] f = "first_data" -> {}
    [] f = "inode_size" -> {<<128>>, <<255>>, <<0, 4>>, <<255, 255>>}
    [] f = "desc_size" -> {}
    [] f = "encrypt" -> {<<>>, <<1, 0, 2, 3>>, <<0, 0, 4, 0>>, Ones(4)}
    [] f \in Texts -> {<<>>, <<65>>, Ones(w), SubSeq([k \in 1..w |-> IF k = w THEN 0 ELSE 100], 1, w),
                       SubSeq([k \in 1..w |-> IF k = 3 THEN 0 ELSE 101], 1, w)}
    [] f = "ipg" -> {WOne, Ones(4), <<0, 0, 0, 128>>}
    [] w > 8 -> {<<>>, Ones(w), <<1>>, SubSeq([k \in 1..w |-> IF k = w THEN 128 ELSE 0], 1, w)}
    [] OTHER -> {<<>>, WOne, Ones(w), SubSeq([k \in 1..w |-> IF k = w THEN 128 ELSE 0], 1, w)}

VARIABLES base, val, changes
vars == <<base, val, changes>>
Init == base \in Bases /\ val = Base(base) /\ changes = 0
Next == /\ changes < Most /\ changes' = changes + 1 /\ UNCHANGED base
        /\ \E f \in NamesOf(SbStruct) : \E x \in Values(f) : x # WNorm(val[f]) /\ val' = [val EXCEPT ![f] = x]
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the fields mean *)
V(v, f) == WNorm(v[f])
Bytes(v, f) == Pad(v[f], Width(SbStruct, f))
Join(v, w, lo, hi) == WAdd(WNorm(v[lo]), WMul(WPow2(8 * w), WNorm(v[hi])))
Text(v, f) ==
  LET s == Bytes(v, f)
      ends == {k \in 1..Len(s) : s[k] = 0}
  IN IF ends = {} THEN s ELSE SubSeq(s, 1, (CHOOSE k \in ends : \A j \in ends : k <= j) - 1)
Plain == {"inodes", "free_inodes", "first_data", "bpg", "cpg", "ipg", "mounts", "max_mounts", "magic", "state", "errors",
          "minor", "interval", "os", "revision", "res_uid", "res_gid", "first_inode", "inode_size", "group_nr", "compat",
          "incompat", "ro_compat", "algo", "prealloc", "prealloc_dir", "reserved_gdt", "journal_inode", "journal_dev",
          "orphan", "hash_version", "journal_backup", "mount_flags", "first_meta", "min_extra", "want_extra", "flags",
          "stride", "mmp_interval", "mmp_block", "stripe", "kbytes", "snap_inode", "snap_id", "snap_reserved",
          "snap_list", "error_count", "usr_quota", "grp_quota", "overhead", "lost_found", "prj_quota", "encoding",
          "encoding_flags", "orphan_file"}
Meaning(v) ==
  [f \in Plain |-> V(v, f)] @@
  [f \in {"uuid", "journal_uuid", "hash_seed", "journal_blocks", "salt"} |-> Bytes(v, f)] @@
  [f \in {"volume", "mounted", "options"} |-> Text(v, f)] @@
  [blocks |-> Join(v, 4, "blocks", "blocks_hi"), reserved |-> Join(v, 4, "reserved", "reserved_hi"),
   free |-> Join(v, 4, "free", "free_hi"), mount_time |-> Join(v, 4, "mtime", "mtime_hi"),
   write_time |-> Join(v, 4, "wtime", "wtime_hi"), last_check |-> Join(v, 4, "lastcheck", "lastcheck_hi"),
   created |-> Join(v, 4, "mkfs", "mkfs_hi"), block_size |-> WOf(1024),
   cluster_size |-> WPow2(10 + WInt(V(v, "log_cluster"))), per_flex |-> WPow2(WInt(V(v, "log_flex"))),
   desc_size |-> IF WD(v["incompat"], 1) \div 128 = 1 THEN V(v, "desc_size") ELSE WOf(32),
   first_error |-> <<Join(v, 4, "ferr_time", "ferr_time_hi"), V(v, "ferr_ino"), V(v, "ferr_block"), Text(v, "ferr_func"),
                     V(v, "ferr_line")>>,
   last_error |-> <<Join(v, 4, "lerr_time", "lerr_time_hi"), V(v, "lerr_ino"), V(v, "lerr_block"), Text(v, "lerr_func"),
                    V(v, "lerr_line")>>,
   backups |-> <<V(v, "backup0"), V(v, "backup1")>>,
   encryption |-> SelectSeq(Bytes(v, "encrypt"), LAMBDA x : x # 0)]
Sealed(v) == WD(v["ro_compat"], 2) \div 4 % 2 = 1
SbOf(v) == LET b == Written(SbStruct, v) IN IF Sealed(v) THEN SealSb(b) ELSE b
Got(v) == SbFields(SbOf(v))
ReadsAsWritten ==
  LET got == Got(val)  want == Meaning(val) IN
  /\ DOMAIN got = DOMAIN want \cup {"seed"}
  /\ \A f \in DOMAIN want : got[f] = want[f]
  /\ base = "seed" => got.seed = V(val, "seed")
  /\ base \in {"short", "long"} => got.seed = <<>>
Opens == LET sb == SbOf(val) IN ValidSb(sb) /\ SupportedSb(sb)

(* Descriptors: the halves which are on disk *)
DescOf(g) == [f \in NamesOf(DescStruct) |-> Some(DescStruct, g + 1, f)]
ShortDesc(v) == \E k \in {1} : WD(v["incompat"], 1) \div 128 = 0
DescBytes(v, g) == LET b == Written(DescStruct, DescOf(g)) IN IF ShortDesc(v) THEN SubSeq(b, 1, 32) ELSE b
DescJoin(v, w, g, lo, hi) ==
  LET d == DescOf(g) IN
  IF ShortDesc(v) THEN WNorm(d[lo]) ELSE WAdd(WNorm(d[lo]), WMul(WPow2(8 * w), WNorm(d[hi])))
DescMeaning(v, g) ==
  [f \in {"block_bitmap", "inode_bitmap", "inode_table", "exclude"} |-> DescJoin(v, 4, g, f, f \o "_hi")] @@
  [f \in {"free_blocks", "free_inodes", "dirs", "unused", "block_csum", "inode_csum"} |-> DescJoin(v, 2, g, f, f \o "_hi")] @@
  [f \in {"flags", "csum"} |-> WNorm(DescOf(g)[f])]
DescsOf(v, count) == FoldLeft(LAMBDA b, g : b \o DescBytes(v, g), <<>>, SubSeq([k \in 1..count |-> k - 1], 1, count))
ImageWith(v, sb) == Image(WOf(65536), (1 :> SegsOf(sb)) @@ (2 :> SegsOf(DescsOf(v, WInt(GroupsMost(sb))))), <<>>, <<>>)
ImageOf(v) == LET sb == SbOf(v) IN ImageWith(v, sb)
DescsAsWritten ==
  changes = 0 \/ val["blocks_hi"] # WOne =>
    LET sb == SbOf(val)
        img == ImageWith(val, sb)
    IN \A g \in 0..(WInt(GroupsMost(sb)) - 1) :
         DescFields(Slice(DescAt(img, sb, g) \o Zeros(64), 0, 64)) = DescMeaning(val, g)

-----------------------------------------------------------------------------
(* <<base, field, which of its values>>; 0: as it is *)
Listed == [f \in NamesOf(SbStruct) |-> SetToSeq(Values(f))]
Picks == SetToSeq({<<b, "magic", 0>> : b \in Bases}
                    \cup UNION {{<<b, f, k>> : k \in {k \in 1..Len(Listed[f]) : b \in {"short", "long"} \/ k = 3}} : b \in Bases, f \in NamesOf(SbStruct)})
Picked(c) == IF c[3] = 0 THEN Base(c[1]) ELSE [Base(c[1]) EXCEPT ![c[2]] = Listed[c[2]][c[3]]]
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN,
    SubSeq([k \in 1..Len(Picks) |-> [img |-> ImageOf(Picked(Picks[k])), ops |-> << [op |-> "open"] >>]], 1, Len(Picks)))
=============================================================================
