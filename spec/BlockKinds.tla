----------------------------- MODULE BlockKinds -----------------------------
(* What every kind of block device has in common, whatever it wraps: the state *)
(* is the device's size and, for every handle, the position of its byte cursor *)
(* where that is known (<<p>>) or <<>>.  Handles of one device may share their *)
(* cursor (two descriptors of one open file do), and reading a block may move  *)
(* it, so after such an operation nothing is known of it until an absolute     *)
(* seek.  D is the device: [bs, segs]; size is a Wide number.                  *)
EXTENDS ByteDevice, FiniteSets

\* An outcome of reading n bytes at cursor c.
KReadOk(D, size, c, n, o) ==
  /\ o.s = "ok"
  /\ Len(o.v) <= n
  /\ IF c = <<>> THEN TRUE
     ELSE IF WLe(size, c[1]) THEN o.v = <<>>
     ELSE /\ n > 0 => Len(o.v) > 0
          /\ WLe(WAdd(c[1], WOf(Len(o.v))), size)
          /\ o.v = Bytes(D.segs, c[1], Len(o.v))
KReadTo(c, o) == IF c = <<>> \/ o.s # "ok" THEN c ELSE << WAdd(c[1], WOf(Len(o.v))) >>

\* The target of a seek as <<p>>; <<>> if it is unknown or not a position.
KTarget(size, c, whence, off) ==
  CASE whence = "start" -> <<off.n>>
    [] whence = "cur" -> IF c = <<>> THEN <<>> ELSE Moved(c[1], off)
    [] whence = "end" -> Moved(size, off)
KSeekOk(size, c, whence, off, o) ==
  LET t == KTarget(size, c, whence, off) IN
  IF t # <<>> /\ WLe(t[1], size) THEN o.s = "ok" /\ o.v = t[1]
  ELSE o.s \in {"ok", "err"}
KSeekTo(c, o) == IF o.s = "ok" THEN <<o.v>> ELSE c

KBlockOk(D, size, b, n, o) ==
  LET at == WMul(b, WOf(D.bs))
      inside == WLe(WAdd(at, WOf(D.bs)), size) /\ n >= D.bs
  IN IF inside
     THEN o.s = "ok" /\ o.v.n = D.bs /\ o.v.tail /\ o.v.d = Bytes(D.segs, at, D.bs)
     ELSE o.s = "err"

KCountOk(D, size, o) == o.s = "ok" /\ o.v = <<WQuo(size, WOf(D.bs)), WOf(D.bs)>>

\* The cursors after an operation of handle h whose own cursor becomes c.
KMoved(curs, h, c) == SubSeq([x \in 1..Len(curs) |-> IF x = h THEN c ELSE <<>>], 1, Len(curs))
=============================================================================
