----------------------------- MODULE MdAssembly -----------------------------
(* Which member of a set of opened devices serves which position of the array. *)
(* A member is [k |-> "small" | "missing"] or [k |-> "sb", index, roles, ...]; *)
(* roles are Role records of MdSuperblock; indices are Wide numbers.           *)
EXTENDS MdSuperblock, FiniteSets

Dom(ms) == 1..Len(ms)
HasSb(m) == m.k = "sb"

\* Entries which say nothing about who holds a position
Silent(r) == r.k \in {"spare", "faulty", "invalid"}

TableLen(ms) ==
  LET n == {Len(ms[d].roles) : d \in Dom(ms)} IN
  IF n = {} THEN 0 ELSE CHOOSE x \in n : \A y \in n : y <= x

\* What the tables say about entry p, silence aside
Said(ms, p) ==
  {ms[d].roles[p] : d \in {e \in Dom(ms) : p <= Len(ms[e].roles) /\ ~Silent(ms[e].roles[p])}}

\* All the members have superblocks and no two contradict each other.
Consistent(ms) ==
  /\ \A d \in Dom(ms) : HasSb(ms[d])
  /\ \A p \in 1..TableLen(ms) : Cardinality(Said(ms, p)) <= 1

\* The position of the member with table entry i (from 1): <<>> or <<number>>
Merged(ms, p) ==
  IF p > TableLen(ms) \/ Said(ms, p) = {} THEN <<>>
  ELSE LET r == CHOOSE r \in Said(ms, p) : TRUE
       IN IF r.k = "number" THEN <<r.n>> ELSE <<>>

Claim(ms, d) ==
  IF ~Consistent(ms) \/ ~WFitsInt(WAdd(ms[d].index, WOne)) THEN <<>>
  ELSE Merged(ms, WInt(ms[d].index) + 1)

\* The claims of all members, as a table (computed once)
Claims(ms) == SubSeq([d \in Dom(ms) |-> Claim(ms, d)], 1, Len(ms))

\* Members which serve a position: the only ones to claim it
ActiveIn(claims) ==
  {d \in 1..Len(claims) :
     claims[d] # <<>> /\ \A e \in 1..Len(claims) : e # d => claims[e] # claims[d]}

Active(ms) == ActiveIn(Claims(ms))
=============================================================================
