---------------------------- MODULE MdDiscovery ----------------------------
(* Where a member's superblock is looked for, and which one is found.          *)
(* Sizes and offsets are Wide numbers of bytes.                                *)
EXTENDS Wide, FiniteSets

MinSize == WOf(12288)
MinSize0 == WOf(65536)
SbLen == WOf(4096)

FloorTo(x, m) == WSub(x, WRem(x, m))
\* 1.0: 8 KiB before the end of the last whole sector, rounded down to 4 KiB
Place10(size) ==
  WMul(FloorTo(WSub(WQuo(size, WOf(512)), WOf(16)), WOf(8)), WOf(512))
\* 0.90: the last but zeroth 64 KiB-aligned 64 KiB
Place0(size) == WSub(FloorTo(size, MinSize0), MinSize0)

\* The places in order of preference: <<major, minor, offset>>
Places(size) ==
  << <<1, 2, WOf(4096)>>, <<1, 1, WZero>>, <<1, 0, Place10(size)>> >>
  \o (IF WLe(MinSize0, size) THEN << <<0, 90, Place0(size)>> >> ELSE <<>>)

\* Valid(major, minor, offset): a valid superblock of that version can be read
\* there.  The result is <<"small">>, <<"missing">> or a place.
Find(size, Valid(_, _, _)) ==
  IF WLt(size, MinSize) THEN <<"small">>
  ELSE LET p == Places(size)
           hits == {k \in 1..Len(p) : Valid(p[k][1], p[k][2], p[k][3])}
       IN IF hits = {} THEN <<"missing">>
          ELSE p[CHOOSE k \in hits : \A j \in hits : k <= j]
=============================================================================
