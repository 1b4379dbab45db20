------------------------------ MODULE Encoding ------------------------------
(* Numbers in sequences of bytes.  A sequence may be shorter than the          *)
(* structure it holds: the rest is zeros.  Offsets count from 0.               *)
EXTENDS Wide

B(b, o) == IF o < Len(b) THEN b[o + 1] ELSE 0
LeBytes(b, o, n) == [k \in 1..n |-> B(b, o + k - 1)]
Le(b, o, n) == WNorm(LeBytes(b, o, n))
Be(b, o, n) == WNorm([k \in 1..n |-> B(b, o + n - k)])
\* 16 bits, as an integer
U16(b, o) == B(b, o) + 256 * B(b, o + 1)
\* n bytes from offset o, exactly
Zeros(n) == SubSeq([k \in 1..n |-> 0], 1, n)
Slice(b, o, n) ==
  IF o + n <= Len(b) THEN SubSeq(b, o + 1, o + n)
  ELSE IF o >= Len(b) THEN Zeros(n)
  ELSE SubSeq(b, o + 1, Len(b)) \o Zeros(o + n - Len(b))
\* Is bit k of the little-endian number at o set?
Bit(b, o, k) == (B(b, o + (k \div 8)) \div 2^(k % 8)) % 2 = 1
=============================================================================
