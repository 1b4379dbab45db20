---------------------------- MODULE MC_RaidArray ----------------------------
(* An array of four members as a state machine: sectors are written, then at   *)
(* most one member is corrupted in one sector or removed.  Reads must give     *)
(* what was last written, or fail; without a fault they must not fail.         *)
(* Members have distinct data offsets; what lies before the data is not zero.  *)
EXTENDS RaidArray, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, Stripes, Offs
ASSUME N >= 4

Members == 0..(N - 1)
Data == N - 2
Sectors == 0..(Data * Stripes - 1)
Phys == 0..Stripes            \* offsets are 0 or 1, chunks are one sector

VARIABLES layout, first, off, disk, written, fault
vars == <<layout, first, off, disk, written, fault>>

\* The array's stripes 0..Stripes-1 are stripes first.. of the layout's rotation.
Where(x) == Kernel6(layout, N, (x \div Data) + first, x % Data)
Home(x) == (x \div Data)

Qof(a, b) == (2 * a) ^^ b
\* Members' contents given what is written
Contents(ly, f, o, wr) ==
  [d \in Members |-> [p \in Phys |->
     IF p < o[d] \/ p >= o[d] + Stripes THEN 9
     ELSE LET s == p - o[d]
              k(x) == Kernel6(ly, N, s + f, x)
              val(x) == wr[s * Data + x]
              \* all data values of the stripe combined
              all[x \in 0..Data] == IF x = 0 THEN 0 ELSE all[x - 1] ^^ val(x - 1)
          IN IF d = k(0)[1] THEN all[Data]
             ELSE IF d = k(0)[2] THEN Qof(val(0), val(1))
             ELSE val(CHOOSE x \in 0..(Data - 1) : k(x)[3] = d)]]

Init ==
  /\ layout \in Layouts6
  /\ first \in 0..(N - 1)
  /\ off \in Offs
  /\ written = [x \in Sectors |-> 0]
  /\ disk = Contents(layout, first, off, written)
  /\ fault = <<>>

\* A small write: read-modify-write of data, P and Q
Write(x, v) ==
  LET w == Where(x)
      s == Home(x)
      at(d) == s + off[d]
      old == disk[w[3]][at(w[3])]
      \* XOR is its own inverse
      newP == (disk[w[1]][at(w[1])] ^^ old) ^^ v
      new == [written EXCEPT ![x] = v]
  IN /\ fault = <<>> /\ written[x] # v
     /\ written' = new
     /\ disk' = [disk EXCEPT ![w[3]][at(w[3])] = v, ![w[1]][at(w[1])] = newP,
                             ![w[2]][at(w[2])] = Qof(new[s * Data], new[s * Data + 1])]
     /\ UNCHANGED <<layout, first, off, fault>>
Corrupt(d, p) ==
  /\ fault = <<>>
  /\ fault' = <<"corrupt", d, p>>
  /\ disk' = [disk EXCEPT ![d][p] = (1 + @) % 4]
  /\ UNCHANGED <<layout, first, off, written>>
TakeOut(d) ==
  /\ fault = <<>>
  /\ fault' = <<"removed", d, 0>>
  /\ UNCHANGED <<layout, first, off, written, disk>>
Next ==
  \/ \E x \in Sectors, v \in 0..1 : Write(x, v)
  \/ \E d \in Members, p \in Phys : Corrupt(d, p)
  \/ \E d \in Members : TakeOut(d)

Read(x) ==
  LET w == Where(x)
      G(d) == IF fault # <<>> /\ fault[1] = "removed" /\ fault[2] = d THEN [r |-> "no", v |-> <<0>>]
              ELSE [r |-> "yes", v |-> <<disk[d][Home(x) + off[d]]>>]
  IN ReadStripe(N, <<w[1], w[2]>>, w[3], G)

\* Incremental parity updates leave what writing everything at once would.
WritesKeepParity == fault = <<>> => disk = Contents(layout, first, off, written)
ReadsAreRight ==
  \A x \in Sectors :
    IF fault = <<>> THEN Read(x) = {<<<<written[x]>>>>}
    ELSE Read(x) \subseteq {<<>>, <<<<written[x]>>>>}
\* A corrupt data or P sector is never silently returned or ignored.
CorruptionIsSeen ==
  (fault # <<>> /\ fault[1] = "corrupt") =>
    \A x \in Sectors :
      LET w == Where(x) IN
      (fault[3] = Home(x) + off[fault[2]] /\ fault[2] # w[2]) => Read(x) = {<<>>}

\* Scenarios for the implementation: whole arrays from sector 0 on, every
\* layout, every contents, every single fault.
ScenOffs == {[d \in Members |-> d % 2], [d \in Members |-> IF d = 0 THEN 1 ELSE 0]}
Scen ==
  {LET wr == [x \in Sectors |-> (w \div (2^x)) % 2]
       c0 == Contents(ly, 0, o, wr)
       c == IF f # <<>> /\ f[1] = "corrupt" THEN [c0 EXCEPT ![f[2]][f[3]] = (1 + @) % 4] ELSE c0
   IN [layout |-> ly, offs |-> SubSeq([d \in 1..N |-> o[d - 1]], 1, N), spd |-> Stripes,
       cells |-> SubSeq([d \in 1..N |-> SubSeq([p \in 1..(Stripes + 1) |-> c[d - 1][p - 1]], 1, Stripes + 1)], 1, N),
       removed |-> IF f # <<>> /\ f[1] = "removed" THEN <<f[2]>> ELSE <<>>]
   : ly \in Layouts6, o \in ScenOffs, w \in 0..(2^(Data * Stripes) - 1),
     f \in {<<>>} \cup {<<"removed", d, 0>> : d \in Members}
           \cup {<<"corrupt", d, p>> : d \in Members, p \in Phys}}
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.VH_SCEN, SetToSeq(Scen))
=============================================================================
