----------------------------- MODULE MC_MdFields -----------------------------
(* Superblocks of every version and byte order as a writer lays them out: a    *)
(* table of fields, each with its place, width and value, and whatever else    *)
(* may be in the rest of the bytes.  The writer changes the values of one or   *)
(* two fields at a time.  Reading always gives what the fields mean, of which  *)
(* no other field and nothing outside the fields has any influence.  Every     *)
(* superblock is a scenario.                                                   *)
EXTENDS MdSuperblock, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Most, Fills

Kinds == {"v0le", "v0be", "v1.0", "v1.1", "v1.2"}
IsV0(k) == k \in {"v0le", "v0be"}
RolePlaces == 6
F(f, o, n) == [f |-> f, o |-> o, n |-> n]
Fields0 ==
  {F("magic", 0, 4), F("major", 4, 4), F("minor", 8, 4), F("uuid0", 20, 4), F("level", 28, 4), F("size", 32, 4),
   F("count", 36, 4), F("disks", 40, 4), F("uuid1", 52, 4), F("uuid2", 56, 4), F("uuid3", 60, 4), F("events", 156, 8),
   F("position", 176, 8), F("nlevel", 184, 4), F("delta", 188, 4), F("nlayout", 192, 4), F("nchunk", 196, 4),
   F("layout", 256, 4), F("chunk", 260, 4), F("index", 3968, 4)}
  \cup {F("role" \o ToString(k), 512 + 128 * k + 12, 4) : k \in 0..(RolePlaces - 1)}
Fields1 ==
  {F("magic", 0, 4), F("major", 4, 4), F("features", 8, 4), F("uuid0", 16, 4), F("uuid1", 20, 4), F("uuid2", 24, 4),
   F("uuid3", 28, 4), F("name", 32, 32), F("level", 72, 4), F("layout", 76, 4), F("size", 80, 8), F("chunk", 88, 4),
   F("disks", 92, 4), F("nlevel", 100, 4), F("position", 104, 8), F("delta", 112, 4), F("nlayout", 116, 4),
   F("nchunk", 120, 4), F("noffset", 124, 4), F("place", 96, 4), F("offset", 128, 8), F("recovery", 152, 8), F("index", 160, 4), F("events", 200, 8), F("count", 220, 4)}
  \cup {F("role" \o ToString(k), 256 + 2 * k, 2) : k \in 0..(RolePlaces - 1)}
Fields(k) == IF IsV0(k) THEN Fields0 ELSE Fields1
Names(k) == {x.f : x \in Fields(k)}
RoleName(k) == "role" \o ToString(k)
RoleNames == {RoleName(k) : k \in 0..(RolePlaces - 1)}

-----------------------------------------------------------------------------
VARIABLES kind, fill, val, changes
vars == <<kind, fill, val, changes>>
Base(k, reshaping) ==
  [f \in Names(k) |->
    CASE f = "magic" -> Magic
      [] f = "major" -> IF IsV0(k) THEN <<>> ELSE WOne
      [] f = "minor" -> IF reshaping THEN WOf(91) ELSE WOf(90)
      [] f = "features" -> IF reshaping THEN WOf(4) ELSE <<>>
      [] f = "count" -> WOf(4)
      [] f = "name" -> <<97, 98>>
      [] f = "uuid0" -> <<1, 2, 3, 4>> [] f = "uuid1" -> <<5, 6, 7, 8>>
      [] f = "uuid2" -> <<9, 10, 11, 12>> [] f = "uuid3" -> <<13, 14, 15, 16>>
      [] f = "level" -> WOf(6) [] f = "layout" -> WOf(2)
      [] f = "size" -> WOf(1000) [] f = "chunk" -> WOf(1024) [] f = "disks" -> WOf(4)
      [] f = "nlevel" -> WOf(5) [] f = "position" -> WOf(2048) [] f = "delta" -> WOf(3)
      [] f = "nlayout" -> WOf(18) [] f = "nchunk" -> WOf(2048) [] f = "noffset" -> WOf(9)
      [] f = "place" -> <<8, 0, 3>> [] f = "recovery" -> WOf(5000)
      [] f = "offset" -> WOf(4000) [] f = "index" -> WOf(2) [] f = "events" -> WOf(77)
      [] OTHER -> WOf(CHOOSE j \in 0..(RolePlaces - 1) : RoleName(j) = f)]
Wides == {<<>>, <<1>>, <<255>>, <<0, 1>>, <<255, 1>>, <<0, 2>>, <<255, 255>>, <<0, 0, 1>>, <<1, 2, 3, 4>>,
          <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>}
Wider == {<<0, 0, 0, 0, 1>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<0, 0, 0, 0, 0, 0, 0, 128>>,
          <<255, 255, 255, 255, 255, 255, 255, 255>>}
RoleWords == {WOf(k) : k \in {0, 1, 255, 256, 65279, 65280, 65500, 65532, 65533, 65534, 65535}}
Values(x) ==
  CASE x.f = "magic" -> {<<253, 78, 43, 169>>, <<169, 43, 78, 253>>, <<252, 78, 43, 41>>}
    \* (Turned round, it would be a right one in the other byte order)
    [] x.f = "major" -> {<<>>, <<1>>, <<2>>, <<0, 1>>, <<0, 0, 0, 1>>}
    [] x.f = "minor" -> {<<>>, WOf(89), WOf(90), WOf(91), WOf(92), <<90, 1>>, <<0, 0, 0, 90>>}
    [] x.f = "features" -> {<<>>, <<4>>, <<251>>, <<255, 255, 255, 255>>, <<0, 4>>, <<1>>, <<2>>, <<0, 2>>, <<254, 251, 255, 255>>,
                             <<253, 253, 255, 255>>, <<7, 6>>}
    [] x.f = "count" -> {WOf(k) : k \in 0..RolePlaces}
    [] x.f = "name" -> {<<>>, SubSeq([k \in 1..32 |-> 200 + k], 1, 32), <<0, 0, 1>>, <<255, 0, 255>>,
                        SubSeq([k \in 1..32 |-> IF k = 32 THEN 9 ELSE 0], 1, 32)}
    [] x.f \in RoleNames -> RoleWords \cup (IF x.n = 4 THEN {<<0, 0, 1>>, <<255, 255, 255, 255>>, <<254, 255, 1>>} ELSE {})
    [] OTHER -> Wides \cup (IF x.n = 8 THEN Wider ELSE {})
Init == /\ kind \in Kinds /\ fill \in Fills
        /\ \E r \in BOOLEAN : val = Base(kind, r)
        /\ changes = 0
Next == /\ changes < Most /\ changes' = changes + 1 /\ UNCHANGED <<kind, fill>>
        /\ \E x \in Fields(kind) : \E v \in Values(x) : v # val[x.f] /\ val' = [val EXCEPT ![x.f] = v]
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The writer's bytes *)
Pad(w, n) == SubSeq([k \in 1..n |-> WD(w, k)], 1, n)
Turned(s) == SubSeq([k \in 1..Len(s) |-> s[Len(s) + 1 - k]], 1, Len(s))
FieldBytes(k, x, v) == IF k = "v0be" /\ x.f # "name" THEN Turned(Pad(v, x.n)) ELSE Pad(v, x.n)
Length(k) == IF IsV0(k) THEN 3972 ELSE 272
BytesOf(k, fl, v) ==
  LET xs == SetToSortSeq(Fields(k), LAMBDA a, b : a.o < b.o)
      gap(n) == SubSeq([j \in 1..n |-> fl], 1, n)
      done == FoldLeft(LAMBDA b, x : b \o gap(x.o - Len(b)) \o FieldBytes(k, x, v[x.f]), <<>>, xs)
  IN done \o gap(Length(k) - Len(done))

\* What the fields mean
RolesOf(v) == SubSeq([j \in 1..WInt(v["count"]) |-> Role(v[RoleName(j - 1)])], 1, WInt(v["count"]))
Uuid(v) == Pad(v["uuid0"], 4) \o Pad(v["uuid1"], 4) \o Pad(v["uuid2"], 4) \o Pad(v["uuid3"], 4)
Old(v) == WLt(v["minor"], WOf(90))
Sectors(w) == WQuo(w, WOf(512))
FeatureBit(w, byte, bit) == (WD(w, byte + 1) \div bit) % 2 = 1
BitTwo(w) == FeatureBit(w, 0, 4)
Only(cond, x) == IF cond THEN <<x>> ELSE <<>>
MeaningOf(k, v) ==
  IF v["magic"] # Magic THEN <<>>
  ELSE IF IsV0(k) THEN
    IF v["major"] # <<>> \/ (\E j \in 1..Len(RolesOf(v)) : RolesOf(v)[j].k = "invalid") THEN <<>>
    ELSE << [major |-> 0, minor |-> v["minor"], uuid |-> IF Old(v) THEN SubSeq(Uuid(v), 1, 4) ELSE Uuid(v),
             name |-> <<>>, named |-> FALSE, algorithm |-> <<v["level"], v["layout"]>>,
             size |-> WMulS(v["size"], 2), chunk |-> Sectors(v["chunk"]), disks |-> v["disks"],
             reshape |-> IF WLe(WOf(91), v["minor"])
                         THEN << <<v["nlevel"], v["nlayout"]>>, v["position"], v["delta"], Sectors(v["nchunk"]), <<>> >>
                         ELSE <<>>,
             offset |-> <<>>, index |-> v["index"], events |-> v["events"], roles |-> RolesOf(v),
             bitmap |-> <<>>, ppl |-> <<>>, recovery |-> <<>>, journal |-> <<>>] >>
  ELSE
    IF v["major"] # <<1>> THEN <<>>
    ELSE << [major |-> 1, minor |-> WOf(CASE k = "v1.0" -> 0 [] k = "v1.1" -> 1 [] k = "v1.2" -> 2),
             uuid |-> Uuid(v), name |-> Pad(v["name"], 32), named |-> TRUE, algorithm |-> <<v["level"], v["layout"]>>,
             size |-> v["size"], chunk |-> v["chunk"], disks |-> v["disks"],
             reshape |-> IF BitTwo(v["features"])
                         THEN << <<v["nlevel"], v["nlayout"]>>, v["position"], v["delta"], v["nchunk"], v["noffset"] >>
                         ELSE <<>>,
             offset |-> v["offset"], index |-> v["index"], events |-> v["events"], roles |-> RolesOf(v),
             bitmap |-> Only(FeatureBit(v["features"], 0, 1), v["place"]),
             ppl |-> Only(FeatureBit(v["features"], 1, 4), <<WNorm(SubSeq(Pad(v["place"], 4), 1, 2)), WNorm(SubSeq(Pad(v["place"], 4), 3, 4))>>),
             recovery |-> Only(FeatureBit(v["features"], 0, 2), v["recovery"]),
             journal |-> Only(FeatureBit(v["features"], 1, 2), v["recovery"])] >>
Minor(k) == CASE k = "v1.2" -> 2 [] k = "v1.1" -> 1 [] OTHER -> 0
Read(k, b) == IF IsV0(k) THEN (IF V0Valid(b) THEN <<V0Decode(b)>> ELSE <<>>)
              ELSE IF V1Valid(b) THEN <<V1Decode(b, Minor(k))>> ELSE <<>>
Same(x, y) == Len(x) = Len(y) /\ (x # <<>> => \A f \in DOMAIN y[1] : x[1][f] = y[1][f])
ReadsAsWritten == Same(Read(kind, BytesOf(kind, fill, val)), MeaningOf(kind, val))

-----------------------------------------------------------------------------
Scenario(k, fl, v) ==
  [ver |-> IF IsV0(k) THEN "v0" ELSE k, fill |-> fl,
   put |-> SetToSeq({<<x.o, FieldBytes(k, x, v[x.f])>> : x \in Fields(k)})]
Changed(k, b) == UNION {{[b EXCEPT ![x.f] = v] : v \in Values(x)} : x \in Fields(k)}
Scenarios(dummy) ==
  UNION {{Scenario(k, 0, v) : v \in Changed(k, Base(k, TRUE)) \cup Changed(k, Base(k, FALSE))} \cup
         {Scenario(k, 255, Base(k, r)) : r \in BOOLEAN} \cup
         {Scenario(k, 255, [Base(k, r) EXCEPT !["count"] = WOf(c)]) : r \in BOOLEAN, c \in 0..RolePlaces} : k \in Kinds}
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.VH_SCEN, SetToSeq(Scenarios(0)))
=============================================================================
