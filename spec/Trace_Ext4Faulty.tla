--------------------------- MODULE Trace_Ext4Faulty ---------------------------
(* Judges histories of operations on a filesystem while reads of its device    *)
(* fail: the state of a file or directory is the set of the states its         *)
(* outcomes allow.                                                             *)
EXTENDS Ext4Candidates, TraceHistory

Start(c) == [fs |-> <<>>, hs |-> <<>>, clones |-> 0]
NoHandle == {}
Failed(c, o) == o.s = "err" /\ Hit(o) /\ c.k \notin {"healthy", "files"}
FileTo(c, s, op, o) == StepFile(c.img, s.fs[1], s.hs[op.h], op.n, o, Failed(c, o))
DirTo(c, s, op, o) == StepDir(c.img, s.fs[1], s.hs[op.h], o, Failed(c, o))

CheckOp(c, s, op, o) ==
  CASE op.op = "fault" -> TRUE
    [] op.op \in {"open", "again"} -> Failed(c, o) \/ OpenOk(c.img, o)
    [] s.fs = <<>> -> o.s = "none"
    [] "f" \in DOMAIN op /\ op.f > s.clones -> o.s = "none"
    [] op.op = "clone" -> o.s = "ok" \/ Failed(c, o)
    [] op.op = "stat" -> Failed(c, o) \/ StatOk(c.img, s.fs[1], op.n, o)
    [] op.op = "file" -> Failed(c, o) \/ OpenFileOk(c.img, s.fs[1], op.n, o)
    [] s.hs[op.h] = {} -> o.s = "none"
    [] op.op = "read" /\ KindOf(s.hs[op.h]) = "file" -> FileTo(c, s, op, o) # {}
    [] op.op = "next" /\ KindOf(s.hs[op.h]) = "dir" -> DirTo(c, s, op, o) # {}
    [] OTHER -> o.s = "none"
After(c, s, op, o) ==
  CASE op.op = "fault" -> s
    [] op.op \in {"open", "again"} ->
         IF o.s # "ok" THEN s
         ELSE [s EXCEPT !.clones = @ + 1, !.fs = IF @ = <<>> THEN <<FsWith(c.img, o.v.groups)>> ELSE @]
    [] s.fs = <<>> \/ ("f" \in DOMAIN op /\ op.f > s.clones) ->
         IF op.op = "file" THEN [s EXCEPT !.hs = Append(@, NoHandle)] ELSE s
    [] op.op = "clone" -> IF o.s = "ok" THEN [s EXCEPT !.clones = @ + 1] ELSE s
    [] op.op = "stat" -> s
    [] op.op = "file" ->
         [s EXCEPT !.hs = Append(@, IF o.s = "ok" /\ o.v.t \in {"file", "dir"}
                                    THEN {Handle(c.img, s.fs[1], op.n, InodeRaw(c.img, s.fs[1], op.n)[1])}
                                    ELSE NoHandle)]
    [] s.hs[op.h] = {} -> s
    [] op.op = "read" /\ KindOf(s.hs[op.h]) = "file" -> [s EXCEPT !.hs[op.h] = FileTo(c, s, op, o)]
    [] op.op = "next" /\ KindOf(s.hs[op.h]) = "dir" -> [s EXCEPT !.hs[op.h] = DirTo(c, s, op, o)]
    [] OTHER -> s
Next == History(Start, CheckOp, After)
=============================================================================
