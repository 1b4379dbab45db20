--------------------------- MODULE MC_RaidReshape ---------------------------
(* A RAID-6 array while its layout, chunk size or number of devices changes:   *)
(* one group of sectors after another is read through the old geometry and     *)
(* written through the new one, in place, while sectors are also written.      *)
(* Reading each sector through the geometry which its place before or after    *)
(* the position selects always gives what was last written.  Every state       *)
(* without further writes is a scenario for the implementation.                *)
EXTENDS RaidReshape, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS Pairs, Chunks, Rows, Grow

Geo == [layout : Layouts6, chunk : Chunks, n : {4, 5}]
Plain(g) == g.n = 4
Data(g) == g.n - 2
Start == {<<a, b>> \in Geo \X Geo :
             /\ a # b /\ a.n = 4
             /\ b.n = 4 \/ (Grow /\ b.n = 5 /\ b.layout = a.layout /\ b.chunk = a.chunk)
             /\ <<a.layout, b.layout>> \in Pairs}

VARIABLES old, new, pos, disk, data
vars == <<old, new, pos, disk, data>>

Total == 2 * Rows                         \* sectors of the array
Place(g, x) ==                            \* row, P, Q, data
  LET c == x \div g.chunk
      s == c \div Data(g)
  IN <<(s * g.chunk) + (x % g.chunk)>> \o Kernel6(g.layout, g.n, s, c % Data(g))
\* Writing all of the array's sectors in a set which fills whole rows
Put(g, dk, X, val(_)) ==
  LET row(r) == {x \in X : Place(g, x)[1] = r}
      Sum[S \in SUBSET X] == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN val(x) ^^ Sum[S \ {x}]
  IN [d \in 0..4 |-> [r \in 0..(Rows - 1) |->
       LET here == row(r) IN
       IF here = {} \/ d >= g.n THEN dk[d][r]
       ELSE LET p == Place(g, CHOOSE x \in here : TRUE) IN
            IF d = p[2] THEN Sum[here]
            ELSE IF d = p[3] THEN (7 * Sum[here] + 3) % 64
            ELSE val(CHOOSE x \in here : Place(g, x)[4] = d)]]
Group(g, h) ==                            \* sectors moved at once
  LET a == g.chunk * Data(g)
      b == h.chunk * Data(h)
  IN CHOOSE m \in 1..(a * b) : m % a = 0 /\ m % b = 0
                              /\ \A k \in 1..(m - 1) : k % a # 0 \/ k % b # 0
Blank == [d \in 0..4 |-> [r \in 0..(Rows - 1) |-> 0]]
Val(x) == 1 + x

Init == \E s \in Start :
  /\ old = s[1] /\ new = s[2] /\ pos = 0
  /\ data = [x \in 0..(Total - 1) |-> Val(x)]
  /\ disk = LET X == 0..(Total - 1) IN Put(s[1], Blank, X, Val)

ReadAt(g, dk, x) ==
  LET w == Place(g, x)
      G(d) == [r |-> "yes", v |-> <<dk[d][w[1]]>>]
  IN ReadStripe(g.n, <<w[2], w[3]>>, w[4], G)
Of(x) == IF InNew(WOf(x), WOf(pos)) THEN new ELSE old

Move ==
  LET L == Group(old, new)
      X == {x \in 0..(Total - 1) : pos <= x /\ x < pos + L}
      V(x) == LET r == ReadAt(old, disk, x) IN (CHOOSE v \in r : TRUE)[1][1]
  IN /\ pos + L <= Total
     /\ disk' = Put(new, disk, X, V)
     /\ pos' = pos + L
     /\ UNCHANGED <<old, new, data>>
\* At most one sector differs from its first value at any time
Write(x) ==
  LET g == Of(x)
      w == Place(g, x)
      v == data[x] ^^ 32
  IN /\ \A y \in DOMAIN data : data[y] = Val(y)
     /\ data' = [data EXCEPT ![x] = v]
     /\ disk' = [disk EXCEPT ![w[4]][w[1]] = v, ![w[2]][w[1]] = @ ^^ 32]
     /\ UNCHANGED <<old, new, pos>>
Next == Move \/ \E x \in 0..(Total - 1) : Write(x)

ReadsAreRight == \A x \in 0..(Total - 1) : ReadAt(Of(x), disk, x) = {<<<<data[x]>>>>}

\* Scenarios: the state of the disks after k groups
After[k \in Nat, s \in Start] ==
  IF k = 0 THEN LET X == 0..(Total - 1) IN Put(s[1], Blank, X, Val)
  ELSE LET L == Group(s[1], s[2])
           X == {x \in 0..(Total - 1) : (k - 1) * L <= x /\ x < k * L}
       IN Put(s[2], After[k - 1, s], X, Val)
Scen ==
  {LET L == Group(s[1], s[2]) c == After[k, s] IN
   [layout |-> s[1].layout, chunk |-> s[1].chunk, nlayout |-> s[2].layout, nchunk |-> s[2].chunk,
    n |-> s[2].n, delta |-> s[2].n - 4, position |-> k * L, spd |-> Rows,
    cells |-> SubSeq([d \in 1..s[2].n |-> SubSeq([r \in 1..Rows |-> c[d - 1][r - 1]], 1, Rows)], 1, s[2].n)]
   : s \in Start, k \in 0..1}
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.VH_SCEN, SetToSeq(Scen))
Some == {<<2, 2>>, <<2, 3>>, <<2, 9>>, <<0, 16>>, <<16, 0>>, <<18, 2>>, <<10, 20>>, <<8, 9>>, <<5, 4>>, <<20, 20>>, <<9, 9>>}
Every == Layouts6 \X Layouts6
=============================================================================
