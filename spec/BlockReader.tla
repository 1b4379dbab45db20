----------------------------- MODULE BlockReader -----------------------------
(* A byte reader over a block device: what each operation may do to a handle   *)
(* whose cursor is p.  D is the device: [size, bs, segs, bad], where bad lists *)
(* ranges [lo, hi) of unreadable bytes.                                        *)
EXTENDS ByteDevice

\* Only whole blocks can be reached
Usable(D) == WSub(D.size, WRem(D.size, WOf(D.bs)))
BlockStart(D, p) == WSub(p, WRem(p, WOf(D.bs)))

\* Does reading the blocks which hold bytes [p, p+n) touch an unreadable byte?
Touches(D, p, n) ==
  LET lo == BlockStart(D, p)
      last == WAdd(p, WOf(n))
      hi == WAdd(BlockStart(D, last), WOf(D.bs))
  IN \E k \in 1..Len(D.bad) : WLt(lo, D.bad[k][2]) /\ WLt(D.bad[k][1], hi)

\* Outcome o of a byte read of n bytes; the cursor afterwards is ReadTo.  o.hit
\* tells whether a call of the device (a read, a seek, ...) failed meanwhile.
ReadOk(D, p, n, o) ==
  IF o.s = "err" THEN o.hit \/ (Touches(D, p, n) /\ WLt(p, Usable(D)))
  ELSE /\ o.s = "ok"
       /\ Len(o.v) <= n
       /\ IF WLe(Usable(D), p) THEN o.v = <<>>
          ELSE /\ n > 0 => Len(o.v) > 0
               /\ WLe(WAdd(p, WOf(Len(o.v))), Usable(D))
               /\ o.v = Bytes(D.segs, p, Len(o.v))
ReadTo(p, o) == IF o.s = "ok" THEN WAdd(p, WOf(Len(o.v))) ELSE p

SeekTarget(D, p, whence, off) ==
  CASE whence = "start" -> <<off.n>>
    [] whence = "cur" -> Moved(p, off)
    [] whence = "end" -> Moved(Usable(D), off)
SeekOk(D, p, whence, off, o) ==
  LET t == SeekTarget(D, p, whence, off) IN
  IF o.s = "ok" THEN t # <<>> /\ o.v = t[1]
  ELSE o.s = "err" /\ (o.hit \/ t = <<>> \/ WLt(Usable(D), t[1]))
SeekTo(p, o) == IF o.s = "ok" THEN o.v ELSE p

BlockOk(D, b, n, o) ==
  LET at == WMul(b, WOf(D.bs))
      inside == WLe(WAdd(at, WOf(D.bs)), Usable(D)) /\ n >= D.bs
  IN IF o.s = "ok"
     THEN inside /\ o.v.n = D.bs /\ o.v.tail /\ o.v.d = Bytes(D.segs, at, D.bs)
     ELSE o.s = "err" /\ (o.hit \/ ~inside \/ Touches(D, at, 0))
=============================================================================
