------------------------------- MODULE MC_Cli -------------------------------
(* The command as a process: it opens the devices one after another, reading   *)
(* only, finds out their sizes, looks for superblocks, and then prints.  In    *)
(* every run the output is the one which Cli defines, no call changes anything *)
(* and the command ends.  The lists are scenarios for the executable.          *)
EXTENDS Cli, Json, IOUtils

CONSTANT MaxLen
Kinds == {"absent", "refused", "file", "sizeless", "small", "blank", "unreadable", "member", "stranger", "again"}
Lists == UNION {[1..n -> Kinds] : n \in 0..MaxLen}
Chosen == {l \in Lists : Len(l) > 0 => l[1] # "again"}
ASSUME "VH_SCEN" \in DOMAIN IOEnv =>
  LET RECURSIVE Row(_)
      Row(S) == IF S = {} THEN <<>> ELSE LET l == CHOOSE l \in S : TRUE IN <<[list |-> l]>> \o Row(S \ {l})
  IN ndJsonSerialize(IOEnv.VH_SCEN, Row(Chosen))

\* What is at each path: an error for opening, an error for its size, a member
Sb(k, u) == [k |-> "sb", index |-> WOf(k), roles |-> <<>>, uuid |-> <<u>>, named |-> FALSE, name |-> <<>>,
             algorithm |-> <<>>, size |-> WOne, chunk |-> WOne, disks |-> WOne, reshape |-> <<>>,
             events |-> WOne, offset |-> WZero]
World(kind, k) ==
  CASE kind = "absent" -> [open |-> 2, size |-> 0, m |-> [k |-> "none"]]
    [] kind = "refused" -> [open |-> 13, size |-> 0, m |-> [k |-> "none"]]
    [] kind = "file" -> [open |-> 0, size |-> 25, m |-> [k |-> "none"]]
    [] kind = "sizeless" -> [open |-> 0, size |-> 5, m |-> [k |-> "none"]]
    [] kind = "small" -> [open |-> 0, size |-> 0, m |-> [k |-> "small"]]
    [] kind \in {"blank", "unreadable"} -> [open |-> 0, size |-> 0, m |-> [k |-> "missing"]]
    [] kind = "member" -> [open |-> 0, size |-> 0, m |-> Sb(k, 1)]
    [] kind = "stranger" -> [open |-> 0, size |-> 0, m |-> Sb(0, 2)]
RECURSIVE Path(_, _)
Path(l, k) == IF l[k] = "again" THEN Path(l, k - 1) ELSE k
Paths(l) == SubSeq([k \in 1..Len(l) |-> Path(l, k)], 1, Len(l))
Places(l) == SubSeq([k \in 1..Len(l) |-> World(l[Path(l, k)], Path(l, k) - 1)], 1, Len(l))

VARIABLES names, pc, at, devices, errors, calls, printed
vars == <<names, pc, at, devices, errors, calls, printed>>
Init ==
  /\ names \in Chosen
  /\ pc = "open" /\ at = 1 /\ devices = <<>> /\ errors = <<>> /\ calls = {} /\ printed = <<>>

Here == Places(names)[at]
Fail(e) ==
  /\ errors' = Append(errors, [d |-> Paths(names)[at], e |-> e])
  /\ at' = at + 1 /\ pc' = "open" /\ UNCHANGED <<names, devices, printed>>
Open ==
  /\ pc = "open" /\ at <= Len(names)
  /\ calls' = calls \cup {"open-read"}
  /\ IF Here.open # 0 THEN Fail(Here.open)
     ELSE pc' = "size" /\ UNCHANGED <<names, at, devices, errors, printed>>
Size ==
  /\ pc = "size"
  /\ calls' = calls \cup {"80081272", "127b"}
  /\ IF Here.size # 0 THEN Fail(Here.size)
     ELSE pc' = "read" /\ UNCHANGED <<names, at, devices, errors, printed>>
Read ==
  /\ pc = "read"
  /\ calls' = calls \cup {"read"}
  /\ devices' = Append(devices, Here.m)
  /\ at' = at + 1 /\ pc' = "open" /\ UNCHANGED <<names, errors, printed>>
Report ==
  /\ pc = "open" /\ at > Len(names)
  /\ printed' = IF errors # <<>> THEN <<[lines |-> errors, diag |-> <<>>]>>
                ELSE <<[lines |-> <<>>, diag |-> <<devices>>]>>
  /\ pc' = "done" /\ UNCHANGED <<names, at, devices, errors, calls>>
Done == pc = "done" /\ UNCHANGED vars
Next == Open \/ Size \/ Read \/ Report \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Devs == LET p == Places(names) IN
  SubSeq([k \in 1..Len(p) |-> [open |-> IF p[k].open # 0 THEN p[k].open ELSE p[k].size, m |-> p[k].m]], 1, Len(p))
ReadOnly == calls \cap (WritingIoctls \cup {"open-write", "write"}) = {}
Right ==
  pc = "done" =>
    /\ printed[1].lines = Lines(Devs, Paths(names))
    /\ (printed[1].diag = <<>>) = (Lines(Devs, Paths(names)) # <<>>)
    /\ printed[1].diag # <<>> => printed[1].diag[1] = Opened(Devs, Paths(names))
\* Each group of a diagnosis is of named devices, and one without problems is
\* only given if nothing is wrong
Sound ==
  pc = "done" /\ printed[1].diag # <<>> =>
    \A e \in Entries : \A g \in Diagnosis(printed[1].diag[1], e) : g.ids \subseteq 1..Len(names) /\ g.ids # {}
Ends == <>(pc = "done")
=============================================================================
