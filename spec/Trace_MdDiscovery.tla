------------------------- MODULE Trace_MdDiscovery -------------------------
(* Judges which superblock the implementation found.  A case lists what was    *)
(* written to the device (non-overlapping superblocks, some flawed) and the    *)
(* byte ranges that cannot be read.                                            *)
EXTENDS MdDiscovery, TraceBase

\* The size the code can know: whole blocks
Known(c) == FloorTo(c.size, WOf(c.bs))
Overlaps(off, r) == WLt(off, r[2]) /\ WLt(r[1], WAdd(off, SbLen))
Readable(c, off) ==
  /\ WLe(WAdd(off, SbLen), c.size)
  /\ \A k \in 1..Len(c.bad) : ~Overlaps(off, c.bad[k])
Hit(c, mj, off) ==
  {k \in 1..Len(c.blobs) : c.blobs[k].off = off /\ c.blobs[k].major = mj /\ c.blobs[k].ok}
\* What is found when the places in skipped could not be looked at
Expect(c, skipped) ==
  LET V(mj, mn, off) == Readable(c, off) /\ Hit(c, mj, off) # {} /\ <<mj, mn, off>> \notin skipped
      f == Find(Known(c), V)
  IN IF Len(f) = 1 THEN [k |-> f[1], major |-> 0, minor |-> <<>>, tag |-> <<>>]
     ELSE [k |-> "sb", major |-> f[1], minor |-> WOf(f[2]),
           tag |-> c.blobs[CHOOSE k \in Hit(c, f[1], f[3]) : TRUE].tag]

(* When calls to the device failed, it may be reported, or each may have kept  *)
(* the searcher from looking at one place; but not from knowing the size.      *)
AllPlaces(c) ==
  IF WLt(Known(c), MinSize) THEN {}
  ELSE LET p == Places(Known(c)) IN {p[k] : k \in 1..Len(p)}
Skips(c) == {S \in SUBSET AllPlaces(c) : Cardinality(S) <= c.out.failed}
Check(c) ==
  IF c.out.s \notin {"ok", "err"} THEN Bad(c, c.out.s)
  ELSE IF c.out.s = "err" /\ c.out.failed > 0 THEN TRUE
  ELSE IF c.out.s = "err" THEN Bad(c, c.out.s)
  ELSE IF c.out.failed = 0 /\ c.out.v = Expect(c, {}) THEN TRUE
  ELSE IF c.out.failed > 0 /\ \E S \in Skips(c) : c.out.v = Expect(c, S) THEN TRUE
  ELSE Bad(c, <<"want", Expect(c, {}), "got", c.out.v>>)
Next == Judge(Check)
=============================================================================
