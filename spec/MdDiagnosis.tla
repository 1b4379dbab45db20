---------------------------- MODULE MdDiagnosis ----------------------------
(* What a diagnosis of a set of members says.  Each entry is a set of groups   *)
(* [v |-> value, ids |-> members], empty when there is no such problem.        *)
EXTENDS MdAssembly

Attributes == {"uuid", "name", "algorithm", "size", "chunk", "disks", "reshape", "events", "roles"}

\* Members whose superblock has the attribute at all
With(ms, a) == {d \in Dom(ms) : HasSb(ms[d]) /\ (a = "name" => ms[d].named)}

Groups(ms, a) ==
  LET W == With(ms, a)
      V == {ms[d][a] : d \in W}
  IN {[v |-> v, ids |-> {d \in W : ms[d][a] = v}] : v \in V}

Disagreement(ms, a) ==
  LET g == Groups(ms, a) IN IF Cardinality(g) > 1 THEN g ELSE {}

SharedIndices(ms) ==
  {g \in Groups(ms, "index") : Cardinality(g.ids) > 1}

Listed(ms, kind) ==
  LET S == {d \in Dom(ms) : ms[d].k = kind} IN
  IF S = {} THEN {} ELSE {[v |-> <<>>, ids |-> S]}

Diagnosis(ms, a) ==
  CASE a \in Attributes -> Disagreement(ms, a)
    [] a = "index" -> SharedIndices(ms)
    [] a \in {"small", "missing"} -> Listed(ms, a)
Entries == Attributes \cup {"index", "small", "missing"}

-----------------------------------------------------------------------------
(* The attributes of a member from its superblock's raw fields *)
IndexOf(sb) == sb.index
MemberOf(m) ==
  IF m.k # "sb" THEN m ELSE
  LET s == m.sb
      v0 == s.major = 0
      bytes(w) == IF v0 THEN WQuo(w, WOf(512)) ELSE w
  IN [k |-> "sb",
      index |-> s.index,
      roles |-> SubSeq([p \in 1..Len(s.roles) |-> Role(s.roles[p])], 1, Len(s.roles)),
      uuid |-> IF v0 /\ WLt(s.minor, WOf(90)) THEN SubSeq(s.uuid, 1, 4) ELSE s.uuid,
      named |-> ~v0,
      name |-> s.name,
      algorithm |-> <<s.level, s.layout>>,
      size |-> IF v0 THEN WMulS(s.size, 2) ELSE s.size,
      chunk |-> bytes(s.chunk),
      disks |-> s.disks,
      reshape |-> IF s.reshaping
                  THEN << <<s.reshape[1], s.reshape[4]>>, s.reshape[2], s.reshape[3],
                          bytes(s.reshape[5]), IF v0 THEN WZero ELSE s.reshape[6] >>
                  ELSE <<>>,
      events |-> s.events,
      offset |-> IF v0 THEN WZero ELSE s.offset]
Members(l) == SubSeq([d \in 1..Len(l) |-> MemberOf(l[d])], 1, Len(l))
=============================================================================
