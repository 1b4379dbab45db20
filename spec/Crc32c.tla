------------------------------- MODULE Crc32c -------------------------------
(* CRC-32C (Castagnoli) without the final inversion, as ext4 uses it.  32-bit  *)
(* values are pairs of 16-bit halves <<high, low>>.                            *)
EXTENDS Encoding, Bitwise

Poly == <<33526, 15224>>                  \* 0x82f63b78
Ones32 == <<65535, 65535>>

XorP(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
HalfP(x) == <<x[1] \div 2, (x[2] \div 2) + 32768 * (x[1] % 2)>>
ShiftP(x) == IF x[2] % 2 = 1 THEN XorP(HalfP(x), Poly) ELSE HalfP(x)
Times8(x) == ShiftP(ShiftP(ShiftP(ShiftP(ShiftP(ShiftP(ShiftP(ShiftP(x))))))))
Table == [n \in 0..255 |-> Times8(<<0, n>>)]

CrcStep(c, b) ==
  LET t == Table[(c[2] % 256) ^^ b]
  IN << (c[1] \div 256) ^^ t[1], ((c[2] \div 256) + 256 * (c[1] % 256)) ^^ t[2] >>
Crc(init, bytes) == FoldLeft(CrcStep, init, bytes)

\* The definition bit by bit, for checking
CrcBit(c, b) == Times8(<<c[1], c[2] ^^ b>>)

\* 32-bit pairs and the bytes that record them
PairAt(b, o) == <<B(b, o + 2) + 256 * B(b, o + 3), B(b, o) + 256 * B(b, o + 1)>>
PairBytes(p) == <<p[2] % 256, p[2] \div 256, p[1] % 256, p[1] \div 256>>
=============================================================================
