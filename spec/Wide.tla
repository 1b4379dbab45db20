-------------------------------- MODULE Wide --------------------------------
(* Unbounded naturals as little-endian base-256 digit sequences, with no       *)
(* leading (that is, trailing in the sequence) zero digits; zero is <<>>.      *)
(* TLC's integers are 32-bit, but sector numbers, byte offsets and sizes in    *)
(* md and ext4 are 64-bit, so every on-disk quantity that can exceed 2^31 is   *)
(* handled as such a sequence.  All the arithmetic is defined here.            *)
EXTENDS Integers, Sequences, SequencesExt

WNorm(s) ==
  LET n == Len(s)
      last[k \in 0..n] == IF k = 0 THEN 0 ELSE IF s[k] # 0 THEN k ELSE last[k-1]
      L == last[n]
  IN  IF L = n THEN s ELSE SubSeq(s, 1, L)

WD(s, k) == IF k <= Len(s) THEN s[k] ELSE 0

WMaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE WOfR(_)
WOfR(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o WOfR(n \div 256)
WOf(n) == WOfR(n)                     \* n \in 0..2^31-1

\* The integer value; only for numbers below 2^31.
RECURSIVE WInt(_)
WInt(w) == IF w = <<>> THEN 0 ELSE w[1] + 256 * WInt(Tail(w))
WFitsInt(w) == Len(w) <= 3 \/ (Len(w) = 4 /\ w[4] < 128)

WZero == <<>>
WOne == <<1>>

WAdd(a, b) ==
  LET n == WMaxLen(a, b)
      r == FoldLeft(LAMBDA acc, k :
                      LET t == WD(a, k) + WD(b, k) + acc[1]
                      IN <<t \div 256, Append(acc[2], t % 256)>>,
                    <<0, <<>>>>, [k \in 1..n |-> k])
  IN IF r[1] = 0 THEN WNorm(r[2]) ELSE Append(r[2], r[1])

\* -1, 0, 1 as a < b, a = b, a > b
WCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE FoldLeft(LAMBDA acc, k : IF a[k] = b[k] THEN acc ELSE IF a[k] < b[k] THEN -1 ELSE 1,
                0, [k \in 1..Len(a) |-> k])
WLt(a, b) == WCmp(a, b) < 0
WLe(a, b) == WCmp(a, b) <= 0

\* a - b for a >= b
WSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, k :
                      LET t == WD(a, k) - WD(b, k) - acc[1]
                      IN IF t < 0 THEN <<1, Append(acc[2], t + 256)>>
                                  ELSE <<0, Append(acc[2], t)>>,
                    <<0, <<>>>>, [k \in 1..Len(a) |-> k])
  IN WNorm(r[2])

\* a * m for 0 <= m < 2^22
WMulS(a, m) ==
  LET r == FoldLeft(LAMBDA acc, d :
                      LET t == d * m + acc[1]
                      IN <<t \div 256, Append(acc[2], t % 256)>>,
                    <<0, <<>>>>, a)
  IN IF m = 0 THEN <<>> ELSE WNorm(r[2] \o WOf(r[1]))

WShiftBytes(a, k) == IF a = <<>> THEN <<>> ELSE [j \in 1..k |-> 0] \o a

WMul(a, b) ==
  FoldLeft(LAMBDA acc, k : WAdd(acc, WShiftBytes(WMulS(a, b[k]), k - 1)),
           <<>>, [k \in 1..Len(b) |-> k])

WRev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

\* <<quotient, remainder>>, divisor an integer with 0 < m < 2^22
WDivS(a, m) ==
  LET r == FoldLeft(LAMBDA acc, d :
                      LET t == acc[1] * 256 + d
                      IN <<t % m, Append(acc[2], t \div m)>>,
                    <<0, <<>>>>, WRev(a))
  IN <<WNorm(WRev(r[2])), WOf(r[1])>>

\* bits of a, most significant first
WBits(a) ==
  [k \in 1..(8 * Len(a)) |->
     LET j == 8 * Len(a) - k    \* weight
     IN (a[(j \div 8) + 1] \div (2^(j % 8))) % 2]

\* <<quotient, remainder>> for any b # 0
WDiv(a, b) ==
  IF Len(b) <= 2 \/ (Len(b) = 3 /\ b[3] < 64) THEN WDivS(a, WInt(b))
  ELSE
    LET r == FoldLeft(LAMBDA acc, bit :
                        LET t == WAdd(WMulS(acc[1], 2), WOf(bit))
                            q == WMulS(acc[2], 2)
                        IN IF WLe(b, t) THEN <<WSub(t, b), WAdd(q, WOne)>> ELSE <<t, q>>,
                      <<WZero, WZero>>, WBits(a))
    IN <<r[2], r[1]>>
WQuo(a, b) == WDiv(a, b)[1]
WRem(a, b) == WDiv(a, b)[2]

\* 2^k
WPow2(k) == WShiftBytes(<<2^(k % 8)>>, k \div 8)

WFits(w, bytes) == Len(w) <= bytes
=============================================================================
