------------------------- MODULE Trace_CliReadOnly -------------------------
(* Judges what runs of the command, and of the library in a process of its     *)
(* own, did to the devices and the files around them: nothing.                 *)
EXTENDS Cli, TraceBase

Check(c) ==
  IF c.out.s # "ok" THEN Bad(c, c.out.s)
  ELSE LET v == c.out.v IN
       IF v.changed # <<>> THEN Bad(c, <<"changed", v.changed>>)
       ELSE IF v.calls # <<>> THEN Bad(c, <<"calls", v.calls>>)
       ELSE IF \E k \in 1..Len(v.ioctls) : v.ioctls[k] \in WritingIoctls THEN Bad(c, <<"ioctls", v.ioctls>>)
       ELSE TRUE
Next == Judge(Check)
=============================================================================
