----------------------------- MODULE MC_Stripes -----------------------------
(* An image striped over the members of a RAID-6 array, and recovered from it. *)
(* The image is a sequence of values; every member is a function from sectors  *)
(* to values; P holds the set-wise sum (here: the set of the stripe's values), *)
(* Q is arbitrary.  Without a fault every sector of the array gives the value  *)
(* of the image; with one member missing, or one of its sectors changed, every *)
(* sector gives that value or an error.  The rows [P, Q, data...] of a whole   *)
(* rotation are written as tables for the harness, which stripes real images.  *)
EXTENDS RaidLayout, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxN, TableN, Chunks

Rows(layout, n) ==
  [s \in 1..(n * (n - 1)) |->
     LET p == PDev(6, layout, n, s - 1) IN
     <<p, QDev(layout, n, p)>> \o SubSeq([d \in 1..(n - 2) |-> DataDev(6, layout, n, s - 1, d - 1)], 1, n - 2)]
Tables ==
  SetToSeq({[layout |-> ly, n |-> n, rows |-> SubSeq(Rows(ly, n), 1, n * (n - 1))] : ly \in Layouts6, n \in 4..TableN})
ASSUME "VH_SCEN" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.VH_SCEN, Tables)

VARIABLES layout, n, chunk, disk, fault
vars == <<layout, n, chunk, disk, fault>>
Stripes == n + 1
Per == Stripes * chunk
Image(x) == x + 1
Combined(S) == {0} \cup S
\* What the harness writes
Striped ==
  [m \in 0..(n - 1) |-> [t \in 0..(Per - 1) |->
     LET s == t \div chunk
         o == t % chunk
         row == Rows(layout, n)[(s % (n * (n - 1))) + 1]
         X(d) == (s * (n - 2) + d) * chunk + o
     IN IF m = row[1] THEN Combined({Image(X(d)) : d \in 0..(n - 3)})
        ELSE IF m = row[2] THEN {-1}
        ELSE LET d == CHOOSE d \in 0..(n - 3) : row[d + 3] = m IN {Image(X(d))}]]

Init ==
  /\ layout \in Layouts6 /\ n \in 4..MaxN /\ chunk \in Chunks
  /\ disk = <<>> /\ fault = <<>>
Build == disk = <<>> /\ disk' = Striped /\ UNCHANGED <<layout, n, chunk, fault>>
Lose(m) == /\ disk # <<>> /\ fault = <<>> /\ fault' = <<m>>
           /\ disk' = [disk EXCEPT ![m] = [t \in 0..(Per - 1) |-> {}]]
           /\ UNCHANGED <<layout, n, chunk>>
Corrupt(m, t) == /\ disk # <<>> /\ fault = <<>> /\ fault' = <<m, t>>
                 /\ disk' = [disk EXCEPT ![m][t] = {-2}]
                 /\ UNCHANGED <<layout, n, chunk>>
Next == Build \/ \E m \in 0..(n - 1) : Lose(m) \/ \E t \in 0..(Per - 1) : Corrupt(m, t)
Spec == Init /\ [][Next]_vars

\* What a read of array sector x may give: <<>> is an error.  The location is
\* that of the kernel's arithmetic.
Read(x) ==
  LET l == Locate(6, layout, n, chunk, x)
      t == l[1]
      data == (0..(n - 1)) \ {l[2], l[3]}
  IN IF \E m \in 0..(n - 1) : disk[m][t] = {} THEN <<>>
     ELSE IF disk[l[2]][t] # Combined(UNION {disk[m][t] : m \in data}) THEN <<>>
     ELSE <<disk[l[4]][t]>>
Sectors == 0..(Per * (n - 2) - 1)
RecoveredExactly == (disk # <<>> /\ fault = <<>>) => \A x \in Sectors : Read(x) = <<{Image(x)}>>
NeverWrong == disk # <<>> => \A x \in Sectors : Read(x) \in {<<>>, <<{Image(x)}>>}
=============================================================================
