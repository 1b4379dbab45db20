------------------------- MODULE Trace_MdDiagnosis -------------------------
(* Judges the diagnosis given for a set of members, for each order.            *)
EXTENDS MdDiagnosis, TraceBase

Groupset(g) == {[v |-> g[k].v, ids |-> {g[k].ids[j] + 1 : j \in 1..Len(g[k].ids)}] : k \in 1..Len(g)}
\* A problem that concerns nobody is not the same as none
Hollow(g) == \E k \in 1..Len(g) : g[k].ids = <<>>
\* No group or member is named twice
NoRepeat(g) ==
  /\ Cardinality(Groupset(g)) = Len(g)
  /\ \A k \in 1..Len(g) : Cardinality({g[k].ids[j] : j \in 1..Len(g[k].ids)}) = Len(g[k].ids)
CheckOne(c, want, o) ==
  LET wrong == {e \in Entries : Hollow(o.diag[e]) \/ Groupset(o.diag[e]) # want[e] \/ ~NoRepeat(o.diag[e])} IN
  IF wrong = {} THEN TRUE
  ELSE Bad(c, <<"order", o.order, [e \in wrong |-> <<"want", want[e], "got", o.diag[e]>>]>>)
Check(c) ==
  LET ms == Members(c.members)
      want == [e \in Entries |-> Diagnosis(ms, e)]
  IN IF c.out.s # "ok" THEN Bad(c, c.out.s)
     ELSE \A k \in 1..Len(c.out.v) : CheckOne(c, want, c.out.v[k])
Next == Judge(Check)
=============================================================================
