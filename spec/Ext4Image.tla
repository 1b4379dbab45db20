------------------------------ MODULE Ext4Image ------------------------------
(* The contents of a device as units of 1 KiB: img.u maps some unit numbers    *)
(* (as strings) to segments [o, b], img.pat lists ranges [lo, hi) of units     *)
(* with contents that tell their number, and all other units are zeros.        *)
(* img.size is the device's size in bytes, a Wide number; img.bad lists ranges *)
(* of units which cannot be read.  Units are numbered from 0, but those from   *)
(* position img.high on are numbered from 2^30, so that contents may lie at    *)
(* any position; everything between 2^38 and img.high is zeros.                *)
EXTENDS Encoding, TLC

InRanges(rs, n) == \E k \in 1..Len(rs) : rs[k][1] <= n /\ n < rs[k][2]
PatByte(n, k) ==
  IF k < 4 THEN (n \div 256^k) % 256
  ELSE IF k < 8 THEN 0
  ELSE ((n % 251) + 7 * k) % 256
PatUnit(n) == SubSeq([k \in 1..1024 |-> PatByte(n, k - 1)], 1, 1024)

UnitSegs(img, n) ==
  LET k == ToString(n) IN IF k \in DOMAIN img.u THEN img.u[k] ELSE <<>>
Expand(segs) == FoldLeft(LAMBDA acc, s : acc \o Zeros(s.o - Len(acc)) \o s.b, <<>>, segs)
\* The bytes of a unit, possibly without zeros at the end
Unit(img, n) == IF InRanges(img.pat, n) THEN PatUnit(n) ELSE Expand(UnitSegs(img, n))
RECURSIVE Units(_, _, _)
Units(img, n, c) ==
  IF c = 0 THEN <<>> ELSE Slice(Unit(img, n), 0, 1024) \o Units(img, n + 1, c - 1)

Kibi(pos) == WInt(WDivS(pos, 1024)[1])
UnitOf(img, pos) ==
  IF WLe(img.high, pos) THEN 2^30 + Kibi(WSub(pos, img.high))
  ELSE IF WLe(WPow2(38), pos) THEN 2^29
  ELSE Kibi(pos)
OffsetOf(pos) == WInt(WDivS(pos, 1024)[2])
\* n bytes at a position inside the device
At(img, pos, n) ==
  LET u == UnitOf(img, pos)
      o == OffsetOf(pos)
  IN IF o + n <= 1024 THEN Slice(Unit(img, u), o, n)
     ELSE Slice(Units(img, u, (o + n + 1023) \div 1024), o, n)

\* Can n bytes (n a Wide number) at pos be read?
Readable(img, pos, n) ==
  LET end == WAdd(pos, n) IN
  IF n = <<>> THEN TRUE
  ELSE IF ~WLe(end, img.size) THEN FALSE
  ELSE IF img.bad = <<>> THEN TRUE
  ELSE LET lo == UnitOf(img, pos)
           hi == UnitOf(img, WSub(end, WOne)) + 1
       IN \A k \in 1..Len(img.bad) : img.bad[k][2] <= lo \/ hi <= img.bad[k][1]

-----------------------------------------------------------------------------
(* Contents read from a device, described by chunks [k, n, m, b] of m bytes    *)
(* each: "p" the contents of patterned unit n and the following ones, "z"      *)
(* zeros, "r" the bytes b.  All but the last are whole units.                  *)
ChunkOk(img, u, c) ==
  LET units == (c.m + 1023) \div 1024
      part(j) == IF j = units THEN c.m - 1024 * (units - 1) ELSE 1024
  IN CASE c.k = "p" -> c.n = u /\ \A j \in 0..(units - 1) : InRanges(img.pat, u + j)
       [] c.k = "z" -> \A j \in 1..units :
                         LET n == u + j - 1 IN
                         \/ ~InRanges(img.pat, n) /\ UnitSegs(img, n) = <<>>
                         \/ Slice(Unit(img, n), 0, part(j)) = Zeros(part(j))
       [] c.k = "r" -> c.b = SubSeq(Units(img, u, units), 1, c.m)
RECURSIVE ChunksFrom(_, _, _, _)
ChunksFrom(img, u, cs, k) ==
  IF k > Len(cs) THEN TRUE
  ELSE ChunkOk(img, u, cs[k]) /\ ChunksFrom(img, u + (cs[k].m \div 1024), cs, k + 1)
ChunksLen(cs) == FoldLeft(LAMBDA acc, c : acc + c.m, 0, cs)
\* Do the chunks describe exactly n bytes of the device at pos?
Describes(cs, img, pos, n) ==
  /\ ChunksLen(cs) = n
  /\ \A k \in 1..(Len(cs) - 1) : cs[k].m % 1024 = 0
  /\ ChunksFrom(img, UnitOf(img, pos), cs, 1)
AllZero(cs, n) ==
  /\ ChunksLen(cs) = n
  /\ \A k \in 1..Len(cs) : cs[k].k = "z" \/ (cs[k].k = "r" /\ cs[k].b = Zeros(cs[k].m))
=============================================================================
