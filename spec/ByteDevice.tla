----------------------------- MODULE ByteDevice -----------------------------
(* The bytes of a device, given as segments [off, b] (an offset and bytes);    *)
(* everything else is zero.  Positions are Wide numbers.                       *)
EXTENDS Wide

MaxInt == 1073741824
\* a - b as an integer, clamped to -MaxInt..MaxInt
Delta(a, b) ==
  IF WLe(b, a)
  THEN LET d == WSub(a, b) IN IF Len(d) > 3 THEN MaxInt ELSE WInt(d)
  ELSE LET d == WSub(b, a) IN IF Len(d) > 3 THEN -MaxInt ELSE -WInt(d)

\* n bytes at position p
Bytes(segs, p, n) ==
  LET delta == SubSeq([s \in 1..Len(segs) |-> Delta(p, segs[s].off)], 1, Len(segs))
      at(k) == {s \in 1..Len(segs) : k + delta[s] >= 1 /\ k + delta[s] <= Len(segs[s].b)}
      byte(k) == LET a == at(k) IN
                 IF a = {} THEN 0
                 ELSE LET s == CHOOSE s \in a : TRUE IN segs[s].b[k + delta[s]]
  IN SubSeq([k \in 1..n |-> byte(k)], 1, n)

Max64 == WSub(WPow2(64), <<1>>)

\* p moved by an offset [neg, n]: <<>> if that is not a 64-bit number
Moved(p, o) ==
  IF o.neg THEN (IF WLe(o.n, p) THEN <<WSub(p, o.n)>> ELSE <<>>)
  ELSE LET q == WAdd(p, o.n) IN IF WFits(q, 8) THEN <<q>> ELSE <<>>
=============================================================================
