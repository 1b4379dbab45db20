----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  Every line of the file named by   *)
(* VH_CASES is one recorded execution of the implementation: its input and     *)
(* its outcome.  A trace specification takes one step per execution, in which  *)
(* it judges the execution; good is FALSE in a state reached by an execution   *)
(* that the specification does not allow.                                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
VARIABLES i, done, good
vars == <<i, done, good>>

Bad(c, what) == PrintT("MISMATCH " \o ToString(c.case) \o " " \o ToString(what)) /\ FALSE

Init == i \in 1..Len(Cases) /\ done = FALSE /\ good = TRUE
Judge(Check(_)) == done = FALSE /\ done' = TRUE /\ i' = i /\ good' = Check(Cases[i])
=============================================================================
