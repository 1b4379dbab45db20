---------------------------- MODULE TraceHistory ----------------------------
(* Common part of the trace specifications for histories: every execution is   *)
(* a sequence of operations (ops) with outcomes (out.v), and each operation is *)
(* one step, taken from a state of the specified system.  good is FALSE in a   *)
(* state reached by an operation whose outcome the specification forbids.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
VARIABLES i, l, st, good
vars == <<i, l, st, good>>

Bad(c, what) == PrintT("MISMATCH " \o ToString(c.case) \o " " \o ToString(what)) /\ FALSE

History(Start(_), CheckOp(_, _, _, _), After(_, _, _, _)) ==
  LET c == Cases[i] IN
  /\ good
  /\ IF c.out.s # "ok"
     THEN l = 0 /\ l' = 1 /\ good' = Bad(c, c.out.s) /\ UNCHANGED <<i, st>>
     ELSE /\ l < Len(c.ops)
          /\ l' = l + 1 /\ i' = i
          /\ LET s == IF l = 0 THEN Start(c) ELSE st
                 op == c.ops[l + 1]
                 o == c.out.v[l + 1]
                 ok == CheckOp(c, s, op, o)
             IN /\ good' = (ok \/ Bad(c, <<"step", l + 1, op, "from", s, "got", o>>))
                /\ st' = IF good' THEN After(c, s, op, o) ELSE s
Init == i \in 1..Len(Cases) /\ l = 0 /\ st = <<>> /\ good = TRUE
=============================================================================
