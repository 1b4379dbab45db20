-------------------------- MODULE MC_MdDiscovery --------------------------
(* For every device size (in 512-byte steps and around them) and every set of  *)
(* superblocks a device can hold: places lie in the device, keep clear of each *)
(* other unless they coincide, and the search returns a superblock of the      *)
(* preferred version among those present.                                      *)
EXTENDS MdDiscovery, TLC
CONSTANT Sizes
QuickSizes == {512 * k : k \in 0..420} \cup {512 * k - 1 : k \in 1..60} \cup {12287, 12289, 65535, 65537, 131071}
DeepSizes == {512 * k : k \in 0..4200} \cup {512 * k - 1 : k \in 1..4200}
VARIABLES size, present, done
Kinds == {<<1, 2>>, <<1, 1>>, <<1, 0>>, <<0, 90>>}
Init == size \in Sizes /\ present \in SUBSET Kinds /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<size, present>>
S == WOf(size)
P == Places(S)
Off(k) == WInt(P[k][3])
Enough == done /\ size >= 12288
Inside == Enough => \A k \in 1..Len(P) : Off(k) + 4096 <= size
Aligned == Enough => \A k \in 1..Len(P) : Off(k) % 4096 = 0
NearEnd ==
  Enough => /\ size - Off(3) >= 8192 /\ size - Off(3) < 8192 + 4096 + 512
            /\ (size >= 65536) => (size - Off(4) >= 65536 /\ size - Off(4) < 131072
                                   /\ Off(4) % 65536 = 0)
Apart ==
  Enough => \A j, k \in 1..Len(P) :
     Off(j) = Off(k) \/ Off(j) + 4096 <= Off(k) \/ Off(k) + 4096 <= Off(j)
\* A superblock of each present kind at its own place (unless another kind is
\* at the same place, in which case the preferred one is).
Valid(mj, mn, off) == <<mj, mn>> \in present
Found == Find(S, Valid)
Preferred ==
  done => IF size < 12288 THEN Found = <<"small">>
          ELSE IF present \cap {<<P[k][1], P[k][2]>> : k \in 1..Len(P)} = {} THEN Found = <<"missing">>
          ELSE /\ <<Found[1], Found[2]>> \in present
               /\ \A k \in present :
                    (k = <<0, 90>> /\ size < 65536) \/ k[1] < Found[1]
                       \/ (k[1] = Found[1] /\ k[2] <= Found[2])
=============================================================================
