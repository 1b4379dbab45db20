----------------------------- MODULE Ext4Build -----------------------------
(* The other direction of the decoders: bytes of superblocks, inodes, extent   *)
(* trees and directories from abstract ones, and images of small filesystems   *)
(* made of them.  Models take their filesystems from here, so that what they   *)
(* show is about the decoding of real bytes, and so that the implementation    *)
(* can be given the same ones.                                                 *)
EXTENDS Ext4Dir

Pad(w, n) == Slice(w, 0, n)
Num(k, n) == Pad(WOf(k), n)
Ones(n) == SubSeq([k \in 1..n |-> 255], 1, n)
Put(b, o, x) == Slice(b, 0, o) \o x \o SubSeq(b, o + Len(x) + 1, Len(b))
\* The bytes as segments: only those parts of blocks that are not zeros
Seg(o, b) == [o |-> o, b |-> b]
SegsOf(b) ==
  LET e == FoldLeft(LAMBDA acc, k :
             IF b[k] = 0 THEN (IF acc.cur = <<>> \/ k < acc.o + Len(acc.cur) + 8
                               THEN acc
                               ELSE [done |-> Append(acc.done, Seg(acc.o, acc.cur)), o |-> 0, cur |-> <<>>])
             ELSE IF acc.cur = <<>> THEN [acc EXCEPT !.o = k - 1, !.cur = <<b[k]>>]
             ELSE [acc EXCEPT !.cur = @ \o Zeros(k - 1 - acc.o - Len(@)) \o <<b[k]>>],
           [done |-> <<>>, o |-> 0, cur |-> <<>>], SubSeq([k \in 1..Len(b) |-> k], 1, Len(b)))
  IN IF e.cur = <<>> THEN e.done ELSE Append(e.done, Seg(e.o, e.cur))

-----------------------------------------------------------------------------
(* Superblocks: values (Wide) of named fields *)
SbPlace ==
  [inodes |-> <<0, 4>>, blocks |-> <<4, 4>>, first_data |-> <<20, 4>>, log_bs |-> <<24, 4>>,
   log_cluster |-> <<28, 4>>, bpg |-> <<32, 4>>, cpg |-> <<36, 4>>, ipg |-> <<40, 4>>,
   max_mounts |-> <<54, 2>>, magic |-> <<56, 2>>, state |-> <<58, 2>>, errors |-> <<60, 2>>,
   minor |-> <<62, 2>>, os |-> <<72, 4>>, revision |-> <<76, 4>>, first_inode |-> <<84, 4>>,
   inode_size |-> <<88, 2>>, group_nr |-> <<90, 2>>, compat |-> <<92, 4>>, incompat |-> <<96, 4>>,
   ro_compat |-> <<100, 4>>, uuid |-> <<104, 16>>, volume |-> <<120, 16>>, prealloc |-> <<204, 1>>,
   hash_version |-> <<252, 1>>, desc_size |-> <<254, 2>>, first_meta |-> <<260, 4>>,
   blocks_high |-> <<336, 4>>, min_extra |-> <<348, 2>>, flags |-> <<352, 4>>, log_flex |-> <<372, 1>>,
   csum_type |-> <<373, 1>>, encryption |-> <<596, 4>>, seed |-> <<624, 4>>, encoding |-> <<636, 2>>,
   reserved |-> <<700, 4>>]
SbNames == DOMAIN SbPlace
SbBytes(v) ==
  FoldLeft(LAMBDA b, f : Put(b, SbPlace[f][1], Pad(v[f], SbPlace[f][2])),
           Zeros(1024), SetToSeq(DOMAIN v))
SealSb(b) == Slice(b, 0, 1020) \o PairBytes(Crc(Ones32, Slice(b, 0, 1020)))

\* A small filesystem: 1 KiB blocks, one group, its inode table in block 4
FeatureExtents == 64
Feature64Bit == 128
FeatureCsumSeed == 8192
PlainSb ==
  [inodes |-> WOf(16), blocks |-> WOf(64), first_data |-> WOf(1), bpg |-> WOf(8192), cpg |-> WOf(8192),
   ipg |-> WOf(16), max_mounts |-> <<255, 255>>, magic |-> WOf(Magic), state |-> WOf(1), errors |-> WOf(1),
   revision |-> WOf(1), first_inode |-> WOf(11), inode_size |-> WOf(128), incompat |-> WOf(FeatureExtents + 2),
   uuid |-> SubSeq([k \in 1..16 |-> 16 * k - 1], 1, 16)]
SumSb == PlainSb @@ [ro_compat |-> WOf(1024), csum_type |-> WOne]
Override(v, f, x) == [n \in DOMAIN v \cup {f} |-> IF n = f THEN x ELSE v[n]]

\* sealed is TRUE if the checksum is to be right
SbSegs(v, sealed) == SegsOf(IF sealed THEN SealSb(SbBytes(v)) ELSE SbBytes(v))
NoHigh == <<0, 0, 0, 0, 0, 0, 0, 0, 1>>
\* blocks: a function from numbers of 1 KiB blocks to their segments
Image(size, blocks, pat, bad) ==
  [size |-> size, high |-> NoHigh, pat |-> pat, bad |-> bad,
   u |-> [n \in {ToString(k) : k \in DOMAIN blocks} |->
            blocks[CHOOSE k \in DOMAIN blocks : ToString(k) = n]]]
InodeTableAt == 4
DescBlock == << Seg(8, <<InodeTableAt>>) >>

-----------------------------------------------------------------------------
(* Inodes: n is the number in the group, from 0 *)
InodeBytes(mode, size, flags, gen, data) ==
  FoldLeft(LAMBDA b, f : Put(b, f[1], f[2]), Zeros(128),
           << <<0, Num(mode, 2)>>, <<4, Pad(size, 4)>>, <<26, <<1, 0>>>>, <<32, Num(flags, 4)>>,
              <<40, data>>, <<100, Pad(gen, 4)>>, <<108, SubSeq(Pad(size, 8), 5, 8)>> >>)
ModeFile == 33188
ModeDir == 16877
FlagExtents == 524288
TableSegs(inodes) ==    \* a function from slots to bytes, of 128 each
  FoldLeft(LAMBDA acc, k : acc \o SegsOf(Zeros(128 * k) \o inodes[k]), <<>>,
           SetToSortSeq(DOMAIN inodes, <))

-----------------------------------------------------------------------------
(* Nodes of extent trees: [depth, max, es], where the entries are              *)
(* [first, len, at] in a leaf and [first, at] above                            *)
LeafEntry(e) == Num(e.first, 4) \o Num(e.len, 2) \o SubSeq(Pad(e.at, 6), 5, 6) \o SubSeq(Pad(e.at, 6), 1, 4)
IndexEntry(e) == Num(e.first, 4) \o Pad(e.at, 6) \o <<0, 0>>
NodeBytes(nd) ==
  FoldLeft(LAMBDA b, e : b \o (IF nd.depth = 0 THEN LeafEntry(e) ELSE IndexEntry(e)),
           Num(ExtentMagic, 2) \o Num(Len(nd.es), 2) \o Num(nd.max, 2) \o Num(nd.depth, 2) \o Zeros(4),
           nd.es)
RootBytes(nd) == Slice(NodeBytes(nd), 0, 60)
\* A node in a block, with its checksum if there is a seed
NodeSegs(nd, seed) ==
  LET b == Slice(NodeBytes(nd), 0, 12 + 12 * nd.max) IN
  IF seed = <<>> THEN SegsOf(b) ELSE SegsOf(b \o PairBytes(Crc(seed[1], b)))

-----------------------------------------------------------------------------
(* Directory blocks: records [ino, rec, type, len, name] one after the other   *)
RecordBytes(e) == Num(e.ino, 4) \o Num(e.rec, 2) \o <<e.len, e.type>> \o e.name
=============================================================================
