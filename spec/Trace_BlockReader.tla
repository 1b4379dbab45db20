------------------------- MODULE Trace_BlockReader -------------------------
(* Judges histories of operations on readers over one device: the state is the *)
(* cursor of every handle.  When an attempt to clone one fails, there are fewer.  *)
EXTENDS BlockReader, TraceHistory

Start(c) == << <<>> >>
CheckOp(c, s, op, o) ==
  CASE op.h > Len(s) -> o.s = "none"
    [] op.op = "read" -> ReadOk(c.dev, s[op.h], op.n, o)
    [] op.op = "seek" -> SeekOk(c.dev, s[op.h], op.whence, op.off, o)
    [] op.op = "block" -> BlockOk(c.dev, op.b, op.n, o)
    [] op.op = "count" -> IF o.s = "ok"
                          THEN o.v = <<WQuo(c.dev.size, WOf(c.dev.bs)), WOf(c.dev.bs)>>
                          ELSE o.s = "err" /\ o.hit
    [] op.op = "clone" -> o.s = "ok" \/ (o.s = "err" /\ o.hit)
After(c, s, op, o) ==
  CASE op.h > Len(s) -> s
    [] op.op = "read" -> [s EXCEPT ![op.h] = ReadTo(@, o)]
    [] op.op = "seek" -> [s EXCEPT ![op.h] = SeekTo(@, o)]
    [] op.op = "clone" -> IF o.s = "ok" THEN Append(s, s[op.h]) ELSE s
    [] OTHER -> s
Next == History(Start, CheckOp, After)
=============================================================================
