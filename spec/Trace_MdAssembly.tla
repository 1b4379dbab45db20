-------------------------- MODULE Trace_MdAssembly --------------------------
(* Judges the seats given to members, for each order in which they were given. *)
EXTENDS MdDiagnosis, TraceBase

\* Scenario members are described by index and table only.
M(c) == Members(c.members)
Ids(s) == {s[k] + 1 : k \in 1..Len(s)}         \* the harness counts from 0

CheckOne(c, ms, o) ==
  LET cl == Claims(ms)
      act == ActiveIn(cl)
      got == {<<o.active[k][2] + 1, o.active[k][1]>> : k \in 1..Len(o.active)}
      want == {<<d, cl[d][1]>> : d \in act}
  IN IF got # want THEN Bad(c, <<"order", o.order, "active want", want, "got", got>>)
     ELSE IF Len(o.active) # Cardinality(act) \/ Len(o.inactive) # Len(ms) - Cardinality(act)
             \/ Ids(o.inactive) # Dom(ms) \ act
     THEN Bad(c, <<"order", o.order, "inactive", o.inactive, "active", o.active>>)
     ELSE TRUE
Check(c) ==
  LET ms == M(c) IN
  IF c.out.s # "ok" THEN Bad(c, c.out.s)
  ELSE \A k \in 1..Len(c.out.v) : CheckOne(c, ms, c.out.v[k])
Next == Judge(Check)
=============================================================================
