--------------------------- MODULE MC_RaidLayout ---------------------------
(* Exhaustive check of RaidLayout within bounds: every supported layout, every *)
(* device count up to MaxN, every stripe of two full rotation periods.         *)
EXTENDS RaidLayout, TLC
CONSTANTS MaxN, Chunks
VARIABLES level, layout, n, chunk, done
vars == <<level, layout, n, chunk, done>>

Init ==
  /\ level \in {5, 6}
  /\ layout \in (IF level = 5 THEN Layouts5 ELSE Layouts6)
  /\ n \in (ParityDevices(level) + 1)..MaxN
  /\ chunk \in Chunks
  /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<level, layout, n, chunk>>

Data == n - ParityDevices(level)
Period == n * (n - 1) * 2
Stripes == 0..(Period - 1)

TypeOK == Supported(level, layout) /\ Data > 0

\* The two descriptions agree, and so does the wide transcription.
Agree ==
  done => \A s \in Stripes : \A d \in 0..(Data - 1) :
    /\ Geometric(level, layout, n, s, d) = Kernel(level, layout, n, s, d)
    /\ (s < n * (n - 1) /\ chunk = 1) =>
         LET k == Kernel(level, layout, n, s, d) IN
           KernelW(level, layout, WOf(n), WOf(s), WOf(d)) = [i \in 1..Len(k) |-> WOf(k[i])]

\* Within a stripe every device holds exactly one thing.
RowIsPartition ==
  done => \A s \in Stripes :
    LET par == Parities(level, layout, n, s)
        devs == {DataDev(level, layout, n, s, d) : d \in 0..(Data - 1)}
    IN /\ Cardinality(par) = ParityDevices(level)
       /\ Cardinality(devs) = Data
       /\ par \cap devs = {}
       /\ par \cup devs = 0..(n - 1)

\* Array sectors and data cells of the members correspond one to one.
Sectors == 0..(2 * n * Data * chunk - 1)
Cell(x) == LET l == Locate(level, layout, n, chunk, x) IN <<l[Len(l)], l[1]>>
MapIsInjective ==
  (done /\ n <= 6) => Cardinality({Cell(x) : x \in Sectors}) = Cardinality(Sectors)
MapStaysOffParity ==
  done => \A x \in Sectors :
    LET l == Locate(level, layout, n, chunk, x) IN
      \A i \in 2..(Len(l) - 1) : l[i] # l[Len(l)]
\* Rotating layouts spread parity over every device.
Rotates ==
  (done /\ layout \in {0, 1, 2, 3, 8, 9, 10}) =>
     {PDev(level, layout, n, s) : s \in 0..(n - 1)} =
        (IF layout \in {4, 5, 20} THEN {} ELSE 0..(n - 1))
LocateWideAgrees ==
  (done /\ n <= 6) => \A x \in Sectors :
    LET l == Locate(level, layout, n, chunk, x)
    IN LocateW(level, layout, WOf(n), WOf(chunk), WOf(x)) = [i \in 1..Len(l) |-> WOf(l[i])]
\* Too few devices or a zero chunk: no location.
Refused ==
  done => /\ Locate(level, layout, n, 0, 5) = <<>>
          /\ Locate(level, layout, ParityDevices(level), chunk, 5) = <<>>
          /\ LocateW(level, layout, WOf(ParityDevices(level)), WOf(chunk), WOf(5)) = <<>>
Inv == /\ TypeOK /\ Agree /\ RowIsPartition /\ MapIsInjective /\ MapStaysOffParity /\ Rotates
       /\ LocateWideAgrees /\ Refused
=============================================================================
