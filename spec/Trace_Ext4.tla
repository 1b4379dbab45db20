----------------------------- MODULE Trace_Ext4 -----------------------------
(* Judges histories of operations on a filesystem: the state is the opened     *)
(* filesystem and every file and directory opened from it so far.  It makes no *)
(* difference which of several clones of the filesystem an operation is on (f) *)
(* and each file has its own position.                                         *)
EXTENDS Ext4Dir, Meanings, TraceHistory

\* Only outcomes of these operations are judged, if VH_FOCUS is set
Focus == IF "VH_FOCUS" \in DOMAIN IOEnv /\ IOEnv.VH_FOCUS # ""
         THEN CASE IOEnv.VH_FOCUS = "open" -> {"open", "again"}
                [] IOEnv.VH_FOCUS = "inode" -> {"stat", "file"}
                [] IOEnv.VH_FOCUS = "read" -> {"read", "skim"}
                [] IOEnv.VH_FOCUS = "list" -> {"next"}
         ELSE {"open", "again", "clone", "stat", "file", "read", "skim", "next", "drain"}

\* void: the filesystem was wrongly opened, so nothing can be said about the rest
Start(c) == [fs |-> <<>>, hs |-> <<>>, clones |-> 0, void |-> FALSE]
NoHandle == [kind |-> "none"]
Judged(c, s, op, o) ==
  CASE op.op = "open" -> OpenOk(c.img, o)
    [] op.op = "again" -> OpenOk(c.img, o)
    [] s.fs = <<>> -> o.s = "none"
    [] "f" \in DOMAIN op /\ op.f > s.clones -> o.s = "none"
    [] op.op = "clone" -> o.s = "ok"
    [] op.op = "stat" -> StatOk(c.img, s.fs[1], op.n, o)
    [] op.op = "file" -> OpenFileOk(c.img, s.fs[1], op.n, o)
    [] s.hs[op.h].kind = "none" -> o.s = "none"
    [] op.op = "read" /\ s.hs[op.h].kind = "file" -> ReadFileOk(c.img, s.fs[1], s.hs[op.h], op.n, o)
    [] op.op = "skim" /\ s.hs[op.h].kind = "file" -> SkimOk(c.img, s.fs[1], s.hs[op.h], op.n, op.k, o)
    [] op.op = "next" /\ s.hs[op.h].kind = "dir" -> NextEntryOk(c.img, s.fs[1], s.hs[op.h], o)
    [] op.op = "drain" -> o.s = "ok"      \* see Trace_Ext4Total
    [] OTHER -> o.s = "none"
CheckOp(c, s, op, o) ==
  IF s.void THEN TRUE
  ELSE IF op.op \notin Focus THEN TRUE
  ELSE Judged(c, s, op, o) /\ (o.s = "ok" => MeaningsOk(o))
After(c, s, op, o) ==
  CASE s.void -> s
    [] op.op \in {"open", "again"} /\ "open" \notin Focus /\ ~OpenOk(c.img, o) -> [s EXCEPT !.void = TRUE]
    [] op.op \in {"open", "again"} ->
         IF o.s # "ok" THEN s
         ELSE [s EXCEPT !.clones = @ + 1, !.fs = IF @ = <<>> THEN <<FsWith(c.img, o.v.groups)>> ELSE @]
    [] s.fs = <<>> -> IF op.op = "file" THEN [s EXCEPT !.hs = Append(@, NoHandle)] ELSE s
    [] op.op = "clone" -> IF o.s = "ok" THEN [s EXCEPT !.clones = @ + 1] ELSE s
    [] op.op = "stat" -> s
    [] op.op = "file" /\ "f" \in DOMAIN op /\ op.f > s.clones -> [s EXCEPT !.hs = Append(@, NoHandle)]
    [] op.op = "file" ->
         LET cl == OpenClass(c.img, s.fs[1], op.n) IN
         [s EXCEPT !.hs = Append(@, IF cl \in {"file", "dir"}
                                    THEN Handle(c.img, s.fs[1], op.n, InodeRaw(c.img, s.fs[1], op.n)[1])
                                    ELSE NoHandle)]
    [] s.hs[op.h].kind = "none" -> s
    [] op.op = "read" /\ s.hs[op.h].kind = "file" ->
         [s EXCEPT !.hs[op.h] = ReadFileTo(c.img, s.fs[1], @, op.n, o)]
    [] op.op = "skim" /\ s.hs[op.h].kind = "file" ->
         [s EXCEPT !.hs[op.h] = SkimTo(c.img, s.fs[1], @, op.n, op.k, o)]
    [] op.op = "next" /\ s.hs[op.h].kind = "dir" ->
         [s EXCEPT !.hs[op.h] = NextEntryTo(c.img, s.fs[1], @, o)]
    [] OTHER -> s
Next == History(Start, CheckOp, After)
=============================================================================
