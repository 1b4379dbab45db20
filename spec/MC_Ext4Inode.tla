----------------------------- MODULE MC_Ext4Inode -----------------------------
(* Where inodes are, and what they record.  Numbering the slots of all tables  *)
(* one after the other, as the number of an inode counts them, gives the       *)
(* position the specification computes; slots never overlap and stay inside    *)
(* their tables.  Times encoded as Linux does are decoded to what they were;   *)
(* each byte of an inode belongs to at most one field, and none outside the    *)
(* part which is in use has any influence.  Each filesystem is a scenario.     *)
EXTENDS Ext4Build, Json, IOUtils, FiniteSets
CONSTANTS Ipgs, Groupss, Sizes, Extras

-----------------------------------------------------------------------------
(* Filesystems *)
Orders == {"up", "down", "gaps"}
Counts == {"all", "less", "more"}
Geos == [ipg : Ipgs, groups : Groupss, isz : Sizes, order : Orders, count : Counts]
Blocks(g) == (g.ipg * g.isz + 1023) \div 1024
TableAt(g, k) ==          \* the block of table k, from 0
  CASE g.order = "up" -> 10 + k * Blocks(g)
    [] g.order = "down" -> 10 + (g.groups - 1 - k) * Blocks(g)
    [] g.order = "gaps" -> 10 + k * (Blocks(g) + 2) + 1
Highest(g) == g.ipg * g.groups
Number(g) == CASE g.count = "all" -> Highest(g) [] g.count = "less" -> Highest(g) - 1 [] g.count = "more" -> Highest(g) + 5
SbOf(g) ==
  Override(Override(Override(Override(Override(Override(PlainSb, "ipg", WOf(g.ipg)), "inodes", WOf(Number(g))),
    "inode_size", WOf(g.isz)), "bpg", WOf(64)), "cpg", WOf(64)), "blocks", WOf(1 + 64 * g.groups))
Descs(g) ==
  FoldLeft(LAMBDA b, k : Put(b, 32 * (k - 1) + 8, <<TableAt(g, k - 1)>>), Zeros(32 * g.groups),
           SubSeq([k \in 1..g.groups |-> k], 1, g.groups))
\* inodes: a function from numbers, as numbers are, to bytes
ByteAt(g, n) == 1024 * TableAt(g, (n - 1) \div g.ipg) + g.isz * ((n - 1) % g.ipg)
FirstUnit == 10
UnitCount(g) == 2 + (Blocks(g) + 2) * g.groups
Whole(g, inodes) ==
  FoldLeft(LAMBDA b, n : Put(b, ByteAt(g, n) - 1024 * FirstUnit, inodes[n]),
           Zeros(1024 * UnitCount(g)), SetToSeq(DOMAIN inodes))
ImageOf(g, inodes) ==
  LET all == Whole(g, inodes) IN
  Image(WOf(1024 * (FirstUnit + UnitCount(g))),
        (1 :> SbSegs(SbOf(g), FALSE)) @@ (2 :> SegsOf(Descs(g)))
        @@ [u \in FirstUnit..(FirstUnit + UnitCount(g) - 1) |-> SegsOf(Slice(all, 1024 * (u - FirstUnit), 1024))],
        <<>>, <<>>)

-----------------------------------------------------------------------------
(* Times as Linux encodes them: t is in seconds since 1901-12-13 20:45:52 UTC, *)
(* of which the low 32 bits are signed seconds since 1970                      *)
Two31 == WPow2(31)
Two32 == WPow2(32)
Low32(t) == Pad(WAdd(t, Two31), 4)
Epoch(t) == WInt(WQuo(t, Two32))
ExtraBytes(t, ns) == Pad(WAdd(WMulS(WOf(ns), 4), WOf(Epoch(t))), 4)
Around(w) == {WSub(w, WOne), w, WAdd(w, WOne)}
Times == {<<>>, WOne} \cup Around(Two31) \cup Around(Two32) \cup Around(WAdd(Two32, Two31))
         \cup Around(WMulS(Two32, 2)) \cup Around(WMulS(Two32, 3)) \cup {WSub(WPow2(34), WOne)}
Nanos == {0, 1, 500000000, 999999999}
Stamps == Times \X Nanos
Fields == << <<8, 140>>, <<12, 132>>, <<16, 136>>, <<144, 148>> >>
Timed(isz, extra, s, k) ==        \* the k-th time is s, all others are zero
  Put(Put(Put(Put(Zeros(isz), Fields[k][1], Low32(s[1])), Fields[k][2], ExtraBytes(s[1], s[2])),
      128, Num(extra, 2)), 0, Num(ModeFile, 2))

-----------------------------------------------------------------------------
(* One inode after the other *)
VARIABLES geo, n, at
vars == <<geo, n, at>>
Img(g) == ImageOf(g, <<>>)
TheFs(g) == Fs(Img(g))
\* at: the slot of inode n, as <<group, slot>>
Init == geo \in Geos /\ n = 1 /\ at = <<0, 0>>
Next == /\ n <= Number(geo) + 1 /\ n' = n + 1 /\ geo' = geo
        /\ at' = IF at[2] + 1 = geo.ipg THEN <<at[1] + 1, 0>> ELSE <<at[1], at[2] + 1>>
Exists == n <= Number(geo) /\ at[1] < geo.groups
Counted ==
  InodePos(Img(geo), TheFs(geo), WOf(n)) =
    IF Exists THEN <<WOf(1024 * TableAt(geo, at[1]) + geo.isz * at[2])>> ELSE <<>>
Contained ==
  Exists => LET p == WInt(InodePos(Img(geo), TheFs(geo), WOf(n))[1]) IN
            /\ 1024 * TableAt(geo, at[1]) <= p
            /\ p + geo.isz <= 1024 * (TableAt(geo, at[1]) + Blocks(geo))
Apart ==
  Exists /\ n > 1 =>
    LET p == WInt(InodePos(Img(geo), TheFs(geo), WOf(n))[1])
        q == WInt(InodePos(Img(geo), TheFs(geo), WOf(n - 1))[1])
    IN p >= q + geo.isz \/ q >= p + geo.isz
NoZero == n = 1 => InodePos(Img(geo), TheFs(geo), <<>>) = <<>>

ASSUME TimesAreDecoded ==
  \A s \in Stamps, k \in 1..4 :
    LET i == Timed(256, 32, s, k) IN
    /\ Stamp(i, Fields[k][1], Fields[k][2]) = <<s[1], s[2]>>
    /\ \A j \in (1..4) \ {k} : Stamp(i, Fields[j][1], Fields[j][2]) = <<Two31, 0>>
\* Bytes beyond what is in use are none
ASSUME UnusedBytes ==
  \A isz \in Sizes : \A x \in Extras :
    LET i == Put(Zeros(isz), 128, Num(x, 2)) IN
    /\ InUse(i, isz) <= isz
    /\ isz < 130 => InUse(i, isz) = 128
    /\ isz >= 160 => InUse(i, isz) = IF x > 32 THEN 160 ELSE 128 + x

-----------------------------------------------------------------------------
(* Scenarios: every number of each filesystem; and a filesystem full of inodes *)
(* of which one byte is not zero, one is not 255, or with one of the times.    *)
Stat(q) == << [op |-> "open"] >> \o SubSeq([k \in 1..Len(q) |-> [op |-> "stat", n |-> WOf(q[k])]], 1, Len(q))
Upto(m) == SubSeq([k \in 1..(m + 1) |-> k - 1], 1, m + 1)
Marked(g, k) == Put(Put(Put(Zeros(g.isz), 0, Num(ModeFile + (k % 512), 2)), 4, Num(k, 4)), 26, Num(k, 2))
Placed == {[img |-> ImageOf(g, [k \in 1..Highest(g) |-> Marked(g, k)]), ops |-> Stat(Upto(Highest(g) + 6))] : g \in Geos}
Shelf(isz, m) == [ipg |-> m, groups |-> 1, isz |-> isz, order |-> "up", count |-> "all"]
Full(isz, bs) == LET g == Shelf(isz, Len(bs)) IN
  [img |-> ImageOf(g, [k \in 1..Len(bs) |-> bs[k]]), ops |-> Stat(SubSeq([k \in 1..Len(bs) |-> k], 1, Len(bs)))]
OneByte(isz, k, x) == LET b == Put(Zeros(isz), k, <<x>>) IN IF isz > 130 /\ k \notin {128, 129} THEN Put(b, 128, <<32, 0>>) ELSE b
NotByte(isz, k, x) == LET b == Put(Ones(isz), k, <<x>>) IN IF isz > 130 /\ k \notin {128, 129} THEN Put(b, 128, <<32, 0>>) ELSE b
Bytewise(isz, lo) ==
  LET m == IF isz - lo < 32 THEN isz - lo ELSE 32 IN
  {Full(isz, SubSeq([k \in 1..m |-> OneByte(isz, lo + k - 1, 165)], 1, m)),
   Full(isz, SubSeq([k \in 1..m |-> NotByte(isz, lo + k - 1, 90)], 1, m))}
Used(isz) ==
  LET xs == SetToSeq(Extras) IN
  {Full(isz, SubSeq([k \in 1..Len(xs) |-> Put(Ones(isz), 128, Num(xs[k], 2))], 1, Len(xs)))}
Timely(k) ==
  LET ss == SetToSeq(Stamps) IN
  {Full(256, SubSeq([j \in 1..Len(ss) |-> Timed(256, x, ss[j], k)], 1, Len(ss))) : x \in {32, Fields[k][2] - 128, 0}}
Scenarios(z) ==
  Placed \cup UNION {Bytewise(isz, 32 * j) : isz \in {128, 256}, j \in 0..5}
  \cup UNION {Used(isz) : isz \in {s \in Sizes : s >= 130}} \cup UNION {Timely(k) : k \in 1..4}
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN, SetToSeq({s \in Scenarios(0) : Len(s.ops) > 1}))
=============================================================================
