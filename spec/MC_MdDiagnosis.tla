--------------------------- MODULE MC_MdDiagnosis ---------------------------
(* Members of an array whose superblocks vary in one or two respects, of       *)
(* either version, or which have no superblock.  A reader which takes the      *)
(* members one by one, in any order, and sorts them by what each records ends  *)
(* with the diagnosis of the specification; every member which has a say is    *)
(* named once in each disagreement; and there is a disagreement about          *)
(* something just if two members vary in a respect that concerns it, whatever  *)
(* else they differ in.  Every set of members is a scenario.                   *)
EXTENDS MdDiagnosis, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Alone, Paired

-----------------------------------------------------------------------------
(* Respects in which members vary, each with values 0 (as usual), 1 and 2.     *)
(* Those of the second line concern nothing that is diagnosed.                 *)
Concerned == {"uuid", "tail", "name", "level", "layout", "size", "chunk", "disks", "reshape", "events", "roles", "count", "index"}
Unconcerned == {"offset", "place", "order"}
Respects == Concerned \cup Unconcerned
\* A member: how it is kept, and what varies
Member(k, v) == [kind |-> k, v |-> v]
Usual == [r \in Respects |-> 0]
Vary(r, x) == [Usual EXCEPT ![r] = x]
VaryTwo(r, x, q, y) == [Usual EXCEPT ![r] = x, ![q] = y]
Ones(n, k) == SubSeq([j \in 1..n |-> k], 1, n)
Triples == [1..3 -> 0..1]
OneRespect ==
  {SubSeq([d \in 1..3 |-> Member(k[d], Vary(r, x[d]))], 1, 3) :
     r \in Alone, x \in [1..3 -> 0..2], k \in {<<"v1", "v1", "v1">>, <<"v1", "v0", "v1">>, <<"v0", "v0", "v1">>}}
TwoRespects ==
  {SubSeq([d \in 1..3 |-> Member("v1", VaryTwo(r, x[d], q, y[d]))], 1, 3) :
     r \in Paired, q \in Respects, x \in {t \in Triples : t[1] = 0}, y \in {t \in Triples : t[1] = 0}}
Without ==
  {SubSeq([d \in 1..3 |-> Member(k[d], Vary(r, IF d = 3 THEN 1 ELSE 0))], 1, 3) :
     r \in Alone, k \in {t \in [1..3 -> {"v1", "old", "v0", "small", "missing"}] : \E d \in 1..3 : t[d] \in {"old", "small", "missing"}}}
Few == {<<>>} \cup {<<Member(k, Usual)>> : k \in {"v1", "old", "v0", "small", "missing"}}
Sets(dummy) == OneRespect \cup TwoRespects \cup Without \cup Few

-----------------------------------------------------------------------------
(* Their superblocks, as recorded *)
Pick3(x, a, b, c) == IF x = 0 THEN a ELSE IF x = 1 THEN b ELSE c
NameBytes == <<104, 111, 115, 116, 58, 97>> \o Ones(26, 0)
V0Kind(k) == k \in {"v0", "old"}
Reshaping(m) == m.v["reshape"] # 0 /\ m.kind # "old"
SbOf(m, d) ==
  LET v == m.v
      v0 == V0Kind(m.kind)
  IN [major |-> IF v0 THEN 0 ELSE 1,
      minor |-> IF m.kind = "old" THEN WOf(89)
                ELSE IF v0 THEN (IF v["reshape"] = 0 THEN WOf(90) ELSE WOf(91))
                ELSE WOf(Pick3(v["place"], 2, 1, 0)),
      big |-> v["order"] # 0,
      uuid |-> Pick3(v["uuid"], <<1, 2, 3, 4>>, <<1, 2, 3, 5>>, <<129, 2, 3, 4>>) \o Ones(11, 7)
               \o <<Pick3(v["tail"], 7, 6, 135)>>,
      name |-> [NameBytes EXCEPT ![1] = Pick3(v["name"], 104, 105, 104),
                                 ![7] = IF v["name"] = 2 THEN 98 ELSE 0],
      level |-> WOf(Pick3(v["level"], 6, 5, 4)),
      layout |-> WOf(Pick3(v["layout"], 2, 3, 18)),
      size |-> IF v0 THEN WOf(Pick3(v["size"], 32, 33, 288)) ELSE WOf(Pick3(v["size"], 64, 66, 576)),
      chunk |-> IF v0 THEN WOf(512 * Pick3(v["chunk"], 1, 2, 257)) ELSE WOf(Pick3(v["chunk"], 1, 2, 257)),
      disks |-> WOf(Pick3(v["disks"], 4, 5, 260)),
      reshaping |-> Reshaping(m),
      \* level, position, change of members, layout, chunk, new offset
      reshape |-> << WOf(6), WOf(1024), WOf(Pick3(v["reshape"], 1, 1, 2)), WOf(2),
                     IF v0 THEN WOf(1024) ELSE WOf(2), WZero >>,
      offset |-> WOf(Pick3(v["offset"], 32, 40, 2080)),
      index |-> WOf(IF v["index"] = 0 THEN d - 1 ELSE v["index"] - 1),
      events |-> Pick3(v["events"], WOf(77), WOf(78), <<77, 0, 0, 0, 1>>),
      roles |-> << WZero, WOne, WOf(2), WOf(Pick3(v["roles"], 3, 65535, 65534)) >>
                \o Ones(v["count"], WOf(65535))]
RawOf(set) ==
  SubSeq([d \in 1..Len(set) |-> IF set[d].kind \in {"small", "missing"} THEN [k |-> set[d].kind]
                                ELSE [k |-> "sb", sb |-> SbOf(set[d], d)]], 1, Len(set))

-----------------------------------------------------------------------------
(* The reader.  Members' attributes are read once. *)
VARIABLES set, ms, left, acc
vars == <<set, ms, left, acc>>
Empty == [e \in Entries |-> <<>>]
Init == /\ set \in Sets(0) /\ ms = Members(RawOf(set))
        /\ left = 1..Len(set) /\ acc = Empty
Speaks(m, e) ==
  CASE e \in {"small", "missing"} -> m.k = e
    [] e = "name" -> HasSb(m) /\ m.named
    [] OTHER -> HasSb(m)
ValueOf(m, e) == IF e \in {"small", "missing"} THEN <<>> ELSE m[e]
\* acc[e] is a list of groups in the order in which they were met
AddTo(gs, x, d) ==
  IF \E k \in 1..Len(gs) : gs[k].v = x
  THEN [k \in 1..Len(gs) |-> IF gs[k].v = x THEN [gs[k] EXCEPT !.ids = @ \cup {d}] ELSE gs[k]]
  ELSE Append(gs, [v |-> x, ids |-> {d}])
Read(d) ==
  /\ left' = left \ {d}
  /\ acc' = [e \in Entries |-> IF Speaks(ms[d], e) THEN AddTo(acc[e], ValueOf(ms[d], e), d) ELSE acc[e]]
  /\ UNCHANGED <<set, ms>>
Next == \E d \in left : Read(d)
Spec == Init /\ [][Next]_vars

Given(e) ==
  LET gs == {acc[e][k] : k \in 1..Len(acc[e])} IN
  CASE e \in Attributes -> IF Cardinality(gs) > 1 THEN gs ELSE {}
    [] e = "index" -> {g \in gs : Cardinality(g.ids) > 1}
    [] OTHER -> gs
Done == left = {}
Sorted == Done => \A e \in Entries : Given(e) = Diagnosis(ms, e)

\* Everybody who has a say is named once, except where only some are concerned
NamedOnce ==
  Done => \A e \in Entries :
    LET gs == Diagnosis(ms, e) IN
    /\ \A g \in gs, h \in gs : g # h => g.ids \cap h.ids = {} /\ g.v # h.v
    /\ \A g \in gs : g.ids # {}
    /\ gs # {} /\ e # "index" => UNION {g.ids : g \in gs} = {d \in 1..Len(set) : Speaks(ms[d], e)}

\* What each respect has to do with what is diagnosed
Respect(e) ==
  CASE e = "uuid" -> {"uuid", "tail"}
    [] e = "algorithm" -> {"level", "layout"}
    [] e = "roles" -> {"roles", "count"}
    [] OTHER -> {e}
Sb(m) == m.kind \in {"v0", "v1", "old"}
Differ(a, b, e) ==
  /\ Sb(a) /\ Sb(b)
  /\ IF e = "uuid" /\ (a.kind = "old" \/ b.kind = "old")
     THEN a.kind # b.kind \/ a.v["uuid"] # b.v["uuid"]
     ELSE IF e = "name" /\ (a.kind # "v1" \/ b.kind # "v1") THEN FALSE
     ELSE IF e = "reshape" /\ (a.kind = "old" \/ b.kind = "old")
     THEN Reshaping(a) # Reshaping(b)
     ELSE \E r \in Respect(e) : a.v[r] # b.v[r]
Because ==
  Done => \A e \in Attributes :
    (Diagnosis(ms, e) # {}) <=> \E a \in 1..Len(set), b \in 1..Len(set) : Differ(set[a], set[b], e)

ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN, SetToSeq({[members |-> RawOf(s)] : s \in Sets(0)}))
=============================================================================
