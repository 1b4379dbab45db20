-------------------------- MODULE Trace_BlockKinds --------------------------
(* Judges histories of operations on the handles of one block device of any    *)
(* kind: the state is [size, curs].                                            *)
EXTENDS BlockKinds, TraceHistory

Start(c) == [size |-> c.dev.size, curs |-> << <<<<>>>> >>]
CheckOp(c, s, op, o) ==
  CASE op.op = "read" -> KReadOk(c.dev, s.size, s.curs[op.h], op.n, o)
    [] op.op = "seek" -> KSeekOk(s.size, s.curs[op.h], op.whence, op.off, o)
    [] op.op = "block" -> KBlockOk(c.dev, s.size, op.b, op.n, o)
    [] op.op = "count" -> KCountOk(c.dev, s.size, o)
    [] op.op \in {"clone", "truncate"} -> o.s = "ok"
After(c, s, op, o) ==
  CASE op.op = "read" -> [s EXCEPT !.curs = KMoved(@, op.h, KReadTo(s.curs[op.h], o))]
    [] op.op = "seek" -> [s EXCEPT !.curs = KMoved(@, op.h, KSeekTo(s.curs[op.h], o))]
    [] op.op = "block" -> [s EXCEPT !.curs = KMoved(@, op.h, <<>>)]
    [] op.op = "clone" -> [s EXCEPT !.curs = Append(@, s.curs[op.h])]
    [] op.op = "truncate" -> [s EXCEPT !.size = op.size]
    [] OTHER -> s
Next == History(Start, CheckOp, After)
=============================================================================
