-------------------------- MODULE Trace_RaidLayout --------------------------
(* Judges the sector locations recorded from the implementation.               *)
EXTENDS RaidLayout, TraceBase

\* The implementation reports <<sector, parity..., data>>.
CheckSweep(c) ==
  /\ Len(c.out.v) = c.count \/ Bad(c, "count")
  /\ \A k \in 1..Len(c.out.v) :
       LET want == IF ~Supported(c.level, c.layout) THEN <<>>
                   ELSE Locate(c.level, c.layout, c.n, c.chunk, k - 1)
       IN c.out.v[k] = want \/ Bad(c, <<"sector", k - 1, "want", want, "got", c.out.v[k]>>)

CheckWide(c) ==
  LET want == LocateW(c.level, c.layout, c.n, c.chunk, c.sector)
  IN c.out.v = want \/ Bad(c, <<"want", want, "got", c.out.v>>)

CheckCode(c) ==
  LET sup == /\ WFitsInt(c.level) /\ WFitsInt(c.layout)
             /\ Supported(WInt(c.level), WInt(c.layout))
      want == IF sup THEN <<WInt(c.level), ParityDevices(WInt(c.level))>> ELSE <<0, 0>>
  IN c.out.v = want \/ Bad(c, <<"want", want, "got", c.out.v>>)

Check(c) ==
  IF c.out.s # "ok" THEN Bad(c, c.out.s)
  ELSE CASE c.k = "sweep" -> CheckSweep(c)
         [] c.k = "wide" -> CheckWide(c)
         [] c.k = "code" -> CheckCode(c)

Next == Judge(Check)
=============================================================================
