----------------------------- MODULE Trace_Cli -----------------------------
(* Judges the output and the end of runs of the command.                       *)
EXTENDS Cli, TraceBase

\* A group as a set of pairs of a value and a bag of names
Norm(e, v) == IF e # "roles" THEN v ELSE SubSeq([k \in 1..Len(v) |-> Role(v[k])], 1, Len(v))
Got(e, groups, n) == {[v |-> Norm(e, groups[k].v), ids |-> Bag(groups[k].ids, n)] : k \in 1..Len(groups)}
Want(e, ms, list, n) == {[v |-> g.v, ids |-> BagOf(g.ids, list, n)] : g \in Diagnosis(ms, e)}
\* Names which are none of those given are 0
Known(groups) == \A k \in 1..Len(groups) : \A j \in 1..Len(groups[k].ids) : groups[k].ids[j] # 0

CheckDiag(c, diag) ==
  LET n == Len(c.devs)
      ms == Members(Opened(c.devs, c.list))
      wrong == {e \in Entries : ~Known(diag[e]) \/ Len(diag[e]) # Cardinality(Diagnosis(ms, e))
                                \/ Got(e, diag[e], n) # Want(e, ms, c.list, n)}
  IN IF wrong = {} THEN TRUE
     ELSE Bad(c, <<"diagnosis", [e \in wrong |-> <<"want", Want(e, ms, c.list, n), "got", diag[e]>>]>>)

CheckRun(c) ==
  LET v == c.out.v
      want == Lines(c.devs, c.list)
  IN IF v.exit # 0 THEN Bad(c, <<"exit", v.exit>>)
     ELSE IF v.lines # want \/ v.other # 0 THEN Bad(c, <<"lines", v.lines, "want", want, "other", v.other>>)
     ELSE IF Len(v.diag) # (IF want = <<>> THEN 1 ELSE 0) THEN Bad(c, <<"diagnoses", Len(v.diag)>>)
     ELSE IF want = <<>> THEN CheckDiag(c, v.diag[1]) ELSE TRUE

Check(c) ==
  IF c.out.s # "ok" THEN Bad(c, c.out.s)
  ELSE CASE c.k \in {"run", "scenario"} -> CheckRun(c)
         [] c.k \in {"help", "version"} ->
              IF c.out.v.exit # 0 THEN Bad(c, <<"exit", c.out.v.exit>>)
              ELSE IF c.out.v.opened # 0 THEN Bad(c, "devices opened")
              ELSE TRUE
         [] c.k = "usage" ->
              IF c.out.v.exit <= 0 \/ c.out.v.lines # <<>> \/ c.out.v.diag # <<>> \/ c.out.v.opened # 0
              THEN Bad(c, c.out.v) ELSE TRUE
         [] OTHER -> TRUE
Next == Judge(Check)
=============================================================================
