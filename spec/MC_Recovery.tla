----------------------------- MODULE MC_Recovery -----------------------------
(* Recovery as a whole: an image striped over the members of a RAID-6 array,   *)
(* the members given in some order, in some condition, perhaps with a device   *)
(* too many; assembled by MdAssembly, read by RaidArray, located by            *)
(* RaidLayout.  Whatever happened to one member, every sector gives what was   *)
(* written or an error; the order and harmless oddities of the tables change   *)
(* nothing; and what is harmed without being looked at does no harm.  The      *)
(* conditions are scenarios for the whole stack, with filesystems as images.   *)
EXTENDS MdAssembly, RaidArray, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Layouts, Members, Chunk, MostOdd

N == Members
Stripes == N + 1
Per == Stripes * Chunk
Capacity == Per * (N - 2)
Image(x) == 1 + 5 * x
OldImage(x) == 2 + 7 * x

(* What became of a member: its table's entries for the others are spare       *)
(* ("lone") or the one for the next member is faulty ("liar"), which its own   *)
(* table makes up for; it is not given, lost its superblock, was replaced by a *)
(* copy of the next, or removed by all; holds an older image; cannot be read   *)
(* in one place; or was changed in one place                                   *)
Silences == {"lone", "liar"}
Losses == {"absent", "blank", "twin", "removed"}
Harms == {"stale", "hole", "flip"}
Conditions == {"good"} \cup Silences \cup Losses \cup Harms
(* and a device too many: a spare, one without superblock, a copy of the first *)
(* member, one of another array                                                *)
Extras == {"none", "spare", "blank", "twin", "foreign"}
Count(cond, S) == Cardinality({m \in 1..N : cond[m] \in S})
\* (A member's own table must record it somewhere)
Conds(most) ==
  {c \in UNION {{[m \in 1..N |-> IF m \in S THEN f[m] ELSE "good"] : f \in [S -> Conditions \ {"good"}]} :
                S \in {S \in SUBSET (1..N) : Cardinality(S) <= most}} :
     Count(c, Harms) <= 1 /\ (Count(c, Silences) <= 1 \/ Count(c, Losses) = 0)}

-----------------------------------------------------------------------------
Num(v) == [k |-> "number", n |-> WOf(v)]
Spare == [k |-> "spare", n |-> <<>>]
Faulty == [k |-> "faulty", n |-> <<>>]
\* The member with index i in the tables has number N - i: numbers need not follow indices
NumberOf(i) == N - i
Entry(cond, m, i) ==
  IF i = N + 1 THEN Spare
  ELSE IF cond[i] = "removed" THEN Faulty
  ELSE IF cond[m] = "lone" /\ i # m THEN Spare
  ELSE IF cond[m] = "liar" /\ i = (m % N) + 1 THEN Faulty
  ELSE Num(NumberOf(i))
Table(cond, m) == SubSeq([i \in 1..(N + 1) |-> Entry(cond, m, i)], 1, N + 1)
Sb(i, roles) == [k |-> "sb", index |-> WOf(i - 1), roles |-> roles]

\* What the member with number q holds at its sector t, of an image Img
Cell(layout, q, t, Img(_)) ==
  LET s == t \div Chunk
      o == t % Chunk
      p == PDev(6, layout, N, s)
      X(d) == (s * (N - 2) + d) * Chunk + o
      Sum[d \in 0..(N - 2)] == IF d = 0 THEN 0 ELSE Sum[d - 1] ^^ Img(X(d - 1))
  IN IF q = p THEN Sum[N - 2]
     ELSE IF q = QDev(layout, N, p) THEN 77
     ELSE Img(X(CHOOSE d \in 0..(N - 3) : DataDev(6, layout, N, s, d) = q))
Content(layout, q, Img(_)) == SubSeq([t \in 1..Per |-> <<Cell(layout, q, t - 1, Img)>>], 1, Per)
Unreadable == <<>>
Harmed(how, at, data, old) ==
  CASE how = "stale" -> old
    [] how = "hole" -> [data EXCEPT ![at] = Unreadable]
    [] how = "flip" -> [data EXCEPT ![at] = <<@[1] ^^ 1>>]
    [] OTHER -> data

\* The devices there are: their superblocks, and their data
Device(layout, cond, at, m) ==
  LET i == IF cond[m] = "twin" THEN (m % N) + 1 ELSE m
      q == NumberOf(i)
  IN [sb |-> IF cond[m] = "blank" THEN [k |-> "missing"] ELSE Sb(i, Table(cond, i)),
      data |-> Harmed(cond[m], at, Content(layout, q, Image), Content(layout, q, OldImage))]
Extra(layout, cond, x) ==
  CASE x = "spare" -> [sb |-> Sb(N + 1, Table(cond, 1)), data |-> Content(layout, 0, OldImage)]
    [] x = "blank" -> [sb |-> [k |-> "missing"], data |-> Content(layout, 0, Image)]
    [] x = "twin" -> [sb |-> Sb(1, Table(cond, 1)), data |-> Content(layout, NumberOf(1), Image)]
    [] x = "foreign" -> [sb |-> Sb(2, Table([m \in 1..N |-> "good"], 2)), data |-> Content(layout, NumberOf(2), OldImage)]
Given(layout, cond, x, at) ==
  LET ms == SetToSortSeq({m \in 1..N : cond[m] # "absent"}, <) IN
  SubSeq([k \in 1..Len(ms) |-> Device(layout, cond, at, ms[k])], 1, Len(ms))
  \o (IF x = "none" THEN <<>> ELSE <<Extra(layout, cond, x)>>)

-----------------------------------------------------------------------------
(* The devices are given one by one, in any order; then seated, then read.     *)
VARIABLES layout, cond, extra, at, left, list, seats
vars == <<layout, cond, extra, at, left, list, seats>>
Init ==
  /\ layout \in Layouts /\ cond \in Conds(MostOdd) /\ extra \in Extras
  \* (It may take the place of a member not given: then it is what is damaged)
  /\ extra = "foreign" => Count(cond, Harms) = 0
  /\ at \in (IF Count(cond, Harms) = 1 THEN {1, Per \div 2, Per} ELSE {1})
  /\ left = {} /\ list = <<>> /\ seats = <<>>
There == Given(layout, cond, extra, at)
Start == /\ left = {} /\ list = <<>> /\ There # <<>> /\ left' = 1..Len(There)
         /\ UNCHANGED <<layout, cond, extra, at, list, seats>>
\* (From either end of what is left: not all orders, but any device may be first or last)
Give == /\ left # {}
        /\ \E d \in {Min(left), Max(left)} : list' = Append(list, There[d]) /\ left' = left \ {d}
        /\ UNCHANGED <<layout, cond, extra, at, seats>>
Sbs == SubSeq([k \in 1..Len(list) |-> list[k].sb], 1, Len(list))
Seat ==
  /\ left = {} /\ list # <<>> /\ seats = <<>>
  /\ LET claims == Claims(Sbs)
         active == ActiveIn(claims)
         data(q) == LET ds == {d \in active : claims[d][1] = WOf(q)} IN
                    IF ds = {} THEN <<>> ELSE list[CHOOSE d \in ds : TRUE].data
     IN seats' = SubSeq([q \in 1..N |-> data(q - 1)], 1, N)
  /\ UNCHANGED <<layout, cond, extra, at, left, list>>
Next == Start \/ Give \/ Seat
Spec == Init /\ [][Next]_vars

\* What reading sector x of the array may give
Read(x) ==
  LET l == Locate(6, layout, N, Chunk, x)
      t == l[1] + 1
      Get(q) == IF seats[q + 1] = <<>> \/ seats[q + 1][t] = Unreadable THEN [r |-> "no", v |-> <<0>>]
                ELSE [r |-> "yes", v |-> seats[q + 1][t]]
  IN ReadStripe(N, <<l[2], l[3]>>, l[4], Get)
Sectors == 0..(Capacity - 1)
Right(x) == <<<<Image(x)>>>>

Done == seats # <<>>
NeverWrong == Done => \A x \in Sectors : Read(x) \subseteq {Right(x), <<>>}
Harmless == extra \in {"none", "spare"} /\ Count(cond, Losses \cup Harms) = 0
Exact == Done /\ Harmless => \A x \in Sectors : Read(x) = {Right(x)}
\* Some position has no claimant or several, or some device says nothing
Claimants(i) ==
  Cardinality({m \in 1..N : (m = i /\ cond[m] \notin {"absent", "twin"}) \/ (cond[m] = "twin" /\ (m % N) + 1 = i)})
  + (IF (extra = "twin" /\ i = 1) \/ (extra = "foreign" /\ i = 2) THEN 1 ELSE 0)
\* (The other array's table may know a member that was removed from this one)
Lost == extra = "blank" \/ Count(cond, {"blank"}) > 0 \/ (extra # "foreign" /\ Count(cond, {"removed"}) > 0) \/ \E i \in 1..N : Claimants(i) # 1
Refused == Done /\ Lost => \A x \in Sectors : Read(x) = {<<>>}
\* A change is noticed in its stripe alone, and not in Q
Local ==
  Done /\ ~Lost /\ Count(cond, {"flip"}) = 1 /\ Count(cond, Harms) = 1 =>
    LET q == NumberOf(CHOOSE m \in 1..N : cond[m] = "flip") IN
    \A x \in Sectors :
      LET l == Locate(6, layout, N, Chunk, x) IN
      Read(x) = IF l[1] + 1 = at /\ q # l[3] THEN {<<>>} ELSE {Right(x)}

-----------------------------------------------------------------------------
Scenario(c, x) == [cond |-> SubSeq([m \in 1..N |-> c[m]], 1, N), extra |-> x,
                   good |-> x \in {"none", "spare"} /\ Count(c, Losses \cup Harms) = 0]
Scenarios(dummy) == {Scenario(c, "none") : c \in Conds(2)} \cup {Scenario(c, x) : c \in Conds(1), x \in Extras}
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.VH_SCEN, SetToSeq(Scenarios(0)))
=============================================================================
