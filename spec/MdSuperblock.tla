---------------------------- MODULE MdSuperblock ----------------------------
(* The on-disk md superblocks and what their fields mean, from Linux's         *)
(* include/uapi/linux/raid/md_p.h.  A superblock is a sequence of bytes, which *)
(* may be shorter than 4096: the rest is zeros.                                *)
EXTENDS Encoding

Magic == <<252, 78, 43, 169>>           \* 0xa92b4efc
SbSize == 4096

-----------------------------------------------------------------------------
(* Positions ("roles"): a member's number, or one of several special codes *)
MaxPosition == WOf(65279)                 \* 0xfeff
RoleKind(w) ==
  IF WLe(w, MaxPosition) THEN "number"
  ELSE IF ~WFitsInt(w) THEN "other"
  ELSE LET v == WInt(w) IN
       CASE v = 65535 -> "spare"
         [] v = 65534 -> "faulty"
         [] v = 65533 -> "journal"
         [] v < 65533 -> "invalid"
         [] OTHER -> "other"
Role(w) == [k |-> RoleKind(w), n |-> IF RoleKind(w) = "number" THEN w ELSE <<>>]

-----------------------------------------------------------------------------
(* Version 0.90 and 0.91: 32-bit words in the byte order of the host that made *)
(* the array.                                                                  *)
V0Devices == 27
V0BigEndian(b) == Le(b, 0, 4) # Magic
V0Num(b, o, n) == IF V0BigEndian(b) THEN Be(b, o, n) ELSE Le(b, o, n)
V0Minor(b) == V0Num(b, 8, 4)
V0Count(b) ==                              \* entries of the descriptor table in use
  LET nr == V0Num(b, 36, 4) IN IF WLe(WOf(V0Devices), nr) THEN V0Devices ELSE WInt(nr)
V0RoleWord(b, k) == V0Num(b, 512 + 128 * k + 12, 4)    \* k from 0
V0Valid(b) ==
  /\ V0Num(b, 0, 4) = Magic
  /\ V0Num(b, 4, 4) = WZero
  /\ \A k \in 0..(V0Count(b) - 1) : RoleKind(V0RoleWord(b, k)) # "invalid"

\* Four bytes, least significant first, of a word
Word4(w) == [k \in 1..4 |-> WD(w, k)]
V0Uuid(b) ==
  IF WLt(V0Minor(b), WOf(90)) THEN Word4(V0Num(b, 20, 4))
  ELSE Word4(V0Num(b, 20, 4)) \o Word4(V0Num(b, 52, 4)) \o Word4(V0Num(b, 56, 4))
       \o Word4(V0Num(b, 60, 4))
V0Decode(b) ==
  [major |-> 0,
   minor |-> V0Minor(b),
   uuid |-> V0Uuid(b),
   name |-> <<>>, named |-> FALSE,
   algorithm |-> <<V0Num(b, 28, 4), V0Num(b, 256, 4)>>,
   size |-> WMulS(V0Num(b, 32, 4), 2),                 \* recorded in KiB
   chunk |-> WQuo(V0Num(b, 260, 4), WOf(512)),         \* recorded in bytes
   disks |-> V0Num(b, 40, 4),
   reshape |-> IF WLe(V0Minor(b), WOf(90)) THEN <<>>
               ELSE << <<V0Num(b, 184, 4), V0Num(b, 192, 4)>>, V0Num(b, 176, 8), V0Num(b, 188, 4),
                       WQuo(V0Num(b, 196, 4), WOf(512)), WZero >>,
   offset |-> WZero,
   index |-> V0Num(b, 3968, 4),
   events |-> V0Num(b, 156, 8),
   roles |-> [k \in 1..V0Count(b) |-> Role(V0RoleWord(b, k - 1))],
   bitmap |-> <<>>, ppl |-> <<>>, recovery |-> <<>>, journal |-> <<>>]

-----------------------------------------------------------------------------
(* Version 1.x: little-endian, minor version given by the location *)
V1Roles == (SbSize - 256) \div 2
V1Count(b) ==
  LET m == Le(b, 220, 4) IN IF WLe(WOf(V1Roles), m) THEN V1Roles ELSE WInt(m)
V1Valid(b) == Le(b, 0, 4) = Magic /\ Le(b, 4, 4) = WOne
V1FeatureOf(b, byte, bit) == (B(b, 8 + byte) \div bit) % 2 = 1
V1Feature(b, bit) == V1FeatureOf(b, 0, bit)            \* bits of the lowest byte
V1If(cond, x) == IF cond THEN <<x>> ELSE <<>>
V1Decode(b, minor) ==
  [major |-> 1,
   minor |-> WOf(minor),
   uuid |-> LeBytes(b, 16, 16),
   name |-> LeBytes(b, 32, 32), named |-> TRUE,
   algorithm |-> <<Le(b, 72, 4), Le(b, 76, 4)>>,
   size |-> Le(b, 80, 8),
   chunk |-> Le(b, 88, 4),
   disks |-> Le(b, 92, 4),
   reshape |-> IF ~V1Feature(b, 4) THEN <<>>
               ELSE << <<Le(b, 100, 4), Le(b, 116, 4)>>, Le(b, 104, 8), Le(b, 112, 4),
                       Le(b, 120, 4), Le(b, 124, 4) >>,
   offset |-> Le(b, 128, 8),
   index |-> Le(b, 160, 4),
   events |-> Le(b, 200, 8),
   roles |-> [k \in 1..V1Count(b) |-> Role(Le(b, 256 + 2 * (k - 1), 2))],
   \* One place for the bitmap's or the partial parity log's, one for how far
   \* recovery came or the journal's tail
   bitmap |-> V1If(V1Feature(b, 1), Le(b, 96, 4)),
   ppl |-> V1If(V1FeatureOf(b, 1, 4), <<Le(b, 96, 2), Le(b, 98, 2)>>),
   recovery |-> V1If(V1Feature(b, 2), Le(b, 152, 8)),
   journal |-> V1If(V1FeatureOf(b, 1, 2), Le(b, 152, 8))]
=============================================================================
