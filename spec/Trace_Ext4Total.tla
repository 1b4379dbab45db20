--------------------------- MODULE Trace_Ext4Total ---------------------------
(* Judges operations on images of any contents: each of them ends, with data   *)
(* or an error, using memory in proportion to the device, and reading or       *)
(* listing to the end gives no more than the tree and the size can account     *)
(* for.                                                                        *)
EXTENDS Ext4Dir, TraceBase

Kib(img) == IF WLt(img.size, WPow2(34)) THEN WInt(WDivS(img.size, 1024)[1]) ELSE 2^24
PeakMost(img) == 16384 + 160 * Kib(img)
LargestMost(img) == 4096 + 64 * Kib(img)

Ends(o) == o.s \in {"ok", "err", "none"}
Frugal(img, o) == o.peak <= PeakMost(img) /\ o.largest <= LargestMost(img)

\* Which inode handle h was opened on: the h-th "file" operation
Files(ops) == SelectSeq(ops, LAMBDA op : op.op = "file")
Blocks(runs) == FoldLeft(LAMBDA acc, r : acc + r.len, 0, runs)
DrainOk(img, fs, n, o) ==
  LET r == InodeRaw(img, fs, n) IN
  IF r = <<>> THEN FALSE                  \* there cannot be a handle
  ELSE LET raw == r[1]
           blocks == Blocks(Runs(img, fs, InodeSeed(fs, n, raw), Slice(raw, 40, 60)))
       IN IF TypeNumber(raw) = 4
          THEN o.v.items <= blocks * (fs.bs \div 8)
          ELSE o.v.items <= blocks /\ WLe(o.v.bytes, SizeOf(raw))
\* Nothing more comes than was there: "cap" only if there is really much to read
StepOk(c, j) ==
  LET op == c.ops[j]
      o == c.out.v[j]
  IN IF ~Ends(o) THEN FALSE
     ELSE IF ~Frugal(c.img, o) THEN FALSE
     ELSE IF op.op # "drain" \/ o.s # "ok" THEN TRUE
     ELSE IF c.out.v[1].s # "ok" THEN FALSE
     ELSE DrainOk(c.img, FsWith(c.img, c.out.v[1].v.groups), Files(c.ops)[op.h].n, o)
Check(c) ==
  IF c.out.s # "ok" THEN Bad(c, c.out.s)
  ELSE IF Len(c.out.v) # Len(c.ops) THEN Bad(c, "length")
  ELSE \A j \in 1..Len(c.ops) : StepOk(c, j) \/ Bad(c, <<"step", j, c.ops[j], c.out.v[j]>>)
Next == Judge(Check)
=============================================================================
