---------------------------- MODULE Trace_Names ----------------------------
(* Judges how the code compares, hashes and shows names, each in each form in  *)
(* which it can be held.  For each of the names (in order): bytes, len, empty, *)
(* text, utf8 (whether it converts to a string, and which), hash; and for each *)
(* pair of names a row of eq, cmp and hash agreement.                          *)
EXTENDS Names, TraceBase, FiniteSets

One(c, k) ==
  LET n == IF c.k = "terminated" THEN Terminated(c.names[k]) ELSE c.names[k]
      o == c.out.v.each[k]
      wrong == {f \in {"bytes", "len", "empty", "text", "utf8", "forms"} :
                  o[f] # CASE f = "bytes" -> n
                           [] f = "len" -> Len(n)
                           [] f = "empty" -> (Len(n) = 0)
                           [] f = "text" -> Text(n)
                           [] f = "utf8" -> IF Valid(n) THEN <<n>> ELSE <<>>
                           [] f = "forms" -> TRUE}
  IN wrong = {} \/ Bad(c, <<"name", n, [f \in wrong |-> o[f]]>>)
Pair(c, names, j, k) ==
  LET o == c.out.v.cmp[j]
      want == Cmp(names[j], names[k])
  IN /\ (o[k] = want) \/ Bad(c, <<"compare", names[j], names[k], "want", want, "got", o[k]>>)
     /\ (want = 0 => c.out.v.each[j].hash = c.out.v.each[k].hash) \/ Bad(c, <<"hash", names[j], names[k]>>)
Check(c) ==
  IF c.out.s # "ok" THEN Bad(c, c.out.s)
  ELSE LET n == Len(c.names)
           names == IF c.k = "terminated" THEN SubSeq([k \in 1..n |-> Terminated(c.names[k])], 1, n) ELSE c.names
           distinct == Cardinality({names[k] : k \in 1..n})
       IN /\ \A k \in 1..n : One(c, k)
          /\ \A j \in 1..n : \A k \in 1..n : Pair(c, names, j, k)
          /\ c.out.v.hashed = distinct \/ Bad(c, <<"hashed", c.out.v.hashed, "distinct", distinct>>)
          /\ c.out.v.ordered = distinct \/ Bad(c, <<"ordered", c.out.v.ordered, "distinct", distinct>>)
          /\ c.out.v.found \/ Bad(c, "not found")
Next == Judge(Check)
=============================================================================
