-------------------------- MODULE MC_MdSuperblock --------------------------
(* Decoding is the inverse of encoding, in both byte orders, for values at and *)
(* around every boundary; both byte orders give the same result; the two       *)
(* versions never mistake each other's superblocks.                            *)
EXTENDS MdSuperblock, TLC, FiniteSets
VARIABLES ver, big, field, val, minor, nr, role, done
vars == <<ver, big, field, val, minor, nr, role, done>>

\* name, offset, width
V0Fields == {<<"uuid0", 20, 4>>, <<"level", 28, 4>>, <<"size", 32, 4>>, <<"disks", 40, 4>>,
             <<"uuid1", 52, 4>>, <<"uuid3", 60, 4>>, <<"events", 156, 8>>, <<"position", 176, 8>>,
             <<"nlevel", 184, 4>>, <<"delta", 188, 4>>, <<"nlayout", 192, 4>>, <<"nchunk", 196, 4>>,
             <<"layout", 256, 4>>, <<"chunk", 260, 4>>, <<"index", 3968, 4>>}
Vals == {<<>>, <<1>>, <<255>>, <<0, 1>>, <<0, 2>>, <<1, 2, 3, 4>>, <<255, 255, 255, 127>>,
         <<0, 0, 0, 128>>, <<255, 255, 255, 255>>}
Wide8 == {<<1, 2, 3, 4, 5, 6, 7, 8>>, <<0, 0, 0, 0, 1>>,
          <<255, 255, 255, 255, 255, 255, 255, 255>>}
Roles == {0, 1, 255, 256, 65279, 65280, 65532, 65533, 65534, 65535}

\* bytes of a superblock with words at offsets: f is a set of <<offset, width, wide>>
Cover(f, o) == {x \in f : x[1] <= o /\ o < x[1] + x[2]}
Byte(f, be, o) ==
  IF Cover(f, o) = {} THEN 0
  ELSE LET x == CHOOSE x \in Cover(f, o) : TRUE
           k == IF be THEN x[1] + x[2] - o ELSE o - x[1] + 1
       IN WD(x[3], k)
Encode(f, be, len) == SubSeq([k \in 1..len |-> Byte(f, be, k - 1)], 1, len)
EncV0(be) ==
  Encode({<<0, 4, Magic>>, <<8, 4, WOf(minor)>>, <<36, 4, WOf(nr)>>, <<field[2], field[3], val>>,
          <<512 + 12, 4, WOf(role)>>, <<512 + 128 + 12, 4, WOf(3)>>},
         be, IF field[2] > 1000 THEN 3972 ELSE 660)

Init ==
  /\ ver = "v0"
  /\ big \in BOOLEAN
  /\ field \in V0Fields
  /\ val \in (IF field[3] = 8 THEN Vals \cup Wide8
              ELSE IF field[1] = "index" THEN {<<1, 2, 3, 4>>} ELSE Vals)
  /\ minor \in {0, 89, 90, 91}
  /\ nr \in (IF field[1] = "level" THEN {0, 1, 2} ELSE {2})
  /\ role \in (IF val = <<1>> /\ field[1] = "level" THEN Roles ELSE {1})
  /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<ver, big, field, val, minor, nr, role>>

D == V0Decode(EncV0(big))
Kib(w) == WMulS(w, 2)
RoundTrip ==
  done =>
    /\ V0Valid(EncV0(big)) = (nr = 0 \/ ~(role \in 65280..65532))
    /\ D.minor = WOf(minor)
    /\ CASE field[1] = "level" -> D.algorithm[1] = val
         [] field[1] = "layout" -> D.algorithm[2] = val
         [] field[1] = "disks" -> D.disks = val
         [] field[1] = "events" -> D.events = val
         [] field[1] = "index" -> D.index = val
         [] field[1] = "size" -> WQuo(D.size, <<2>>) = val /\ WRem(D.size, <<2>>) = WZero
         [] field[1] = "chunk" -> WLe(WMul(D.chunk, WOf(512)), val)
                                  /\ WLt(WSub(val, WMul(D.chunk, WOf(512))), WOf(512))
         [] field[1] = "uuid0" -> WNorm(SubSeq(D.uuid, 1, 4)) = val
         [] field[1] \in {"uuid1", "uuid3"} ->
              IF minor < 90 THEN Len(D.uuid) = 4
              ELSE WNorm(SubSeq(D.uuid, IF field[1] = "uuid1" THEN 5 ELSE 13,
                                IF field[1] = "uuid1" THEN 8 ELSE 16)) = val
         [] OTHER -> IF minor <= 90 THEN D.reshape = <<>>
                     ELSE val = (CASE field[1] = "position" -> D.reshape[2]
                                   [] field[1] = "nlevel" -> D.reshape[1][1]
                                   [] field[1] = "delta" -> D.reshape[3]
                                   [] field[1] = "nlayout" -> D.reshape[1][2]
                                   [] field[1] = "nchunk" -> WAdd(WMul(D.reshape[4], WOf(512)),
                                                                 WRem(val, WOf(512))))
    /\ D.roles = SubSeq(<<Role(WOf(role)), Role(WOf(3))>>, 1, nr)
SameInBothOrders == done => V0Decode(EncV0(TRUE)) = V0Decode(EncV0(FALSE))
NotVersion1 == done => ~V1Valid(EncV0(big))
=============================================================================
