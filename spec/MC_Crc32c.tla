------------------------------ MODULE MC_Crc32c ------------------------------
(* The table-driven CRC is the bitwise one, it is linear, it can be resumed,   *)
(* and it gives the published check value and RFC 3720's examples.             *)
EXTENDS Crc32c, TLC
VARIABLE c
Inv32(p) == <<65535 - p[1], 65535 - p[2]>>
Check(bytes) == Inv32(Crc(Ones32, bytes))
Rep(x, n) == [k \in 1..n |-> x]
ASSUME Check(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<58118, 37507>>           \* e3069283
ASSUME Check(Rep(0, 32)) = <<35473, 13994>>                                      \* 8a9136aa
ASSUME Check(Rep(255, 32)) = <<25256, 43843>>                                    \* 62a8ab43
ASSUME Check([k \in 1..32 |-> k - 1]) = <<18141, 31054>>                         \* 46dd794e
ASSUME PairBytes(PairAt(<<1, 2, 3, 250>>, 0)) = <<1, 2, 3, 250>>

Values == {<<0, 0>>, Ones32, <<4660, 22136>>, <<32768, 1>>, <<1, 32768>>}
Init == c \in Values \X (0..255)
Next == UNCHANGED c
Resumes == \A x \in {0, 1, 128, 255} : Crc(Crc(c[1], <<c[2]>>), <<x>>) = Crc(c[1], <<c[2], x>>)
Bitwise_ == CrcStep(c[1], c[2]) = CrcBit(c[1], c[2])
Linear == \A v \in Values : XorP(CrcStep(c[1], c[2]), CrcStep(v, 0)) = CrcStep(XorP(c[1], v), c[2])
\* A change of one byte always changes the checksum.
Detects == \A x \in 0..255 : x # c[2] => Crc(c[1], <<x, 7, 0>>) # Crc(c[1], <<c[2], 7, 0>>)
=============================================================================
