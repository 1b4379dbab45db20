--------------------------- MODULE MC_MdAssembly ---------------------------
(* Checks that merging tables one by one in any order, as a sequential reader  *)
(* would, gives the order-free result of MdAssembly, and that assembly never   *)
(* seats two members at one position or loses one.  Every set of up to         *)
(* MaxMembers members is a scenario for the implementation.                    *)
EXTENDS MdAssembly, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxMembers, Codes, MaxLen, Indices

RoleOf(v) == Role(WOf(v))
Tables == UNION {[1..n -> Codes] : n \in 0..MaxLen}
AMember == {[k |-> "small"], [k |-> "missing"]}
           \cup {[k |-> "sb", index |-> i, roles |-> t] : i \in Indices, t \in Tables}
Lists == UNION {[1..n -> AMember] : n \in 0..MaxMembers}

Model(m) == IF m.k = "sb"
            THEN [k |-> "sb", index |-> WOf(m.index),
                  roles |-> SubSeq([p \in 1..Len(m.roles) |-> RoleOf(m.roles[p])], 1, Len(m.roles))]
            ELSE m

VARIABLES raw, done
Init == raw \in Lists /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ raw' = raw
ms == SubSeq([d \in 1..Len(raw) |-> Model(raw[d])], 1, Len(raw))

-----------------------------------------------------------------------------
(* The sequential reader: <<>> is "contradiction", <<t>> a table *)
MergeTwo(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      one(p) == IF p > Len(b) THEN <<a[p]>> ELSE IF p > Len(a) THEN <<b[p]>>
                ELSE IF Silent(a[p]) THEN <<b[p]>>
                ELSE IF Silent(b[p]) \/ a[p] = b[p] THEN <<a[p]>> ELSE <<>>
  IN IF \E p \in 1..n : one(p) = <<>> THEN <<>>
     ELSE << SubSeq([p \in 1..n |-> one(p)[1]], 1, n) >>
Fold(order) ==   \* starts with the first member's table
  FoldLeft(LAMBDA acc, d :
             IF acc = <<>> \/ ~HasSb(ms[d]) THEN <<>> ELSE MergeTwo(acc[1], ms[d].roles),
           IF HasSb(ms[order[1]]) THEN <<ms[order[1]].roles>> ELSE <<>>,
           Tail(order))
Perms == {f \in [Dom(ms) -> Dom(ms)] : \A a, b \in Dom(ms) : f[a] = f[b] => a = b}
NumberOf(t, i) == IF i <= Len(t) /\ t[i].k = "number" THEN <<t[i].n>> ELSE <<>>
FoldAgrees ==
  (done /\ ms # <<>>) => \A f \in Perms :
     LET r == Fold([k \in Dom(ms) |-> f[k]]) IN
       IF r = <<>> THEN ~Consistent(ms)
       ELSE /\ Consistent(ms)
            /\ \A p \in 1..(MaxLen + 1) : NumberOf(r[1], p) = Merged(ms, p)

\* The active members hold distinct positions and every position held is one
\* that some table records and none contradicts.
SeatsDistinct ==
  done => \A a, b \in Active(ms) : a # b => Claims(ms)[a] # Claims(ms)[b]
SeatsRecorded ==
  done => \A a \in Active(ms) :
     /\ HasSb(ms[a])
     /\ \E d \in Dom(ms) : LET p == WInt(ms[a].index) + 1 IN
          p <= Len(ms[d].roles) /\ ms[d].roles[p] = [k |-> "number", n |-> Claims(ms)[a][1]]
OnlyWholeSets ==
  done => ((\E d \in Dom(ms) : ~HasSb(ms[d])) => Active(ms) = {})

ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN,
                  SetToSeq({[members |-> l] : l \in UNION {[1..n -> AMember] : n \in 0..2}}))
=============================================================================
