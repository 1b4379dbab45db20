---------------------------- MODULE MC_BlockKinds ----------------------------
(* Two concrete kinds of device, modelled as they work: a file, whose handles  *)
(* share one offset that block reads move too and that may lie past the end,   *)
(* and memory, where every handle has an own offset that never leaves the      *)
(* contents.  Both refine the common specification.                            *)
EXTENDS BlockKinds, TLC, Json, IOUtils, SequencesExt
OffsetsQ == {-2, 0, 1, 5}
OffsetsT == {-5, -2, -1, 0, 1, 2, 5}
CONSTANTS Sizes, BlockSizes, Lens, Offsets, Limit, ScenLen

Content(n) == << [off |-> <<>>, b |-> SubSeq([k \in 1..n |-> 10 + k], 1, n)] >>
VARIABLES kind, full, size, bs, pos, curs, last
vars == <<kind, full, size, bs, pos, curs, last>>
D == [bs |-> bs, segs |-> Content(full)]
Slice(p, n) == SubSeq([k \in 1..n |-> 10 + p + k], 1, n)
Lesser(a, b) == IF a < b THEN a ELSE b

Init ==
  /\ kind \in {"file", "memory"} /\ full \in Sizes /\ size = full /\ bs \in BlockSizes
  /\ pos = <<0>> /\ curs = << <<<<>>>> >> /\ last = <<>>
SetPos(h, p) == pos' = [x \in 1..Len(pos) |-> IF x = h \/ kind = "file" THEN p ELSE pos[x]]
Rest == UNCHANGED <<kind, full, size, bs>>

Read(h, n) ==
  LET m == IF pos[h] >= size THEN 0 ELSE Lesser(n, size - pos[h])
      o == [s |-> "ok", v |-> Slice(pos[h], m)]
  IN /\ SetPos(h, pos[h] + m) /\ curs' = KMoved(curs, h, KReadTo(curs[h], o))
     /\ last' = <<"read", curs[h], n, o>> /\ Rest
Off(o) == IF o < 0 THEN [neg |-> TRUE, n |-> WOf(-o)] ELSE [neg |-> FALSE, n |-> WOf(o)]
Seek(h, wh, d) ==
  LET base == CASE wh = "start" -> 0 [] wh = "cur" -> pos[h] [] wh = "end" -> size
      t == base + d
      q == IF kind = "memory" THEN (IF t < 0 THEN 0 ELSE Lesser(t, size)) ELSE t
      o == IF q < 0 THEN [s |-> "err", v |-> <<>>] ELSE [s |-> "ok", v |-> WOf(q)]
  IN /\ (wh = "start" => d >= 0) /\ t <= Limit
     /\ IF q < 0 THEN pos' = pos ELSE SetPos(h, q)
     /\ curs' = KMoved(curs, h, KSeekTo(curs[h], o))
     /\ last' = <<"seek", curs[h], wh, Off(d), o>> /\ Rest
Block(h, b, n) ==
  LET fits == (b + 1) * bs <= size /\ n >= bs
      o == IF fits THEN [s |-> "ok", v |-> [n |-> bs, tail |-> TRUE, d |-> Slice(b * bs, bs)]]
           ELSE [s |-> "err", v |-> <<>>]
  IN /\ IF kind = "file" /\ n >= bs THEN SetPos(h, IF fits THEN (b + 1) * bs ELSE Limit) ELSE pos' = pos
     /\ curs' = KMoved(curs, h, <<>>)
     /\ last' = <<"block", b, n, o>> /\ Rest
Clone == /\ Len(pos) < 2 /\ pos' = Append(pos, pos[1]) /\ curs' = Append(curs, curs[1])
         /\ last' = <<>> /\ Rest
Truncate(n) == /\ kind = "file" /\ n < size /\ size' = n /\ last' = <<>>
               /\ UNCHANGED <<kind, full, bs, pos, curs>>
Next == \/ \E h \in 1..Len(pos) : \/ \E n \in Lens : Read(h, n)
                                  \/ \E wh \in {"start", "cur", "end"}, o \in Offsets : Seek(h, wh, o)
                                  \/ \E b \in 0..2, n \in {1, bs, bs + 1} : Block(h, b, n)
        \/ Clone
        \/ \E n \in {0, 3} : Truncate(n)

\* What is known of a cursor is true, and every outcome is one the common
\* specification allows.
Refines == \A h \in 1..Len(pos) : curs[h] = <<>> \/ curs[h][1] = WOf(pos[h])
Permitted ==
  IF last = <<>> THEN TRUE
  ELSE CASE last[1] = "read" -> KReadOk(D, WOf(size), last[2], last[3], last[4])
         [] last[1] = "seek" -> KSeekOk(WOf(size), last[2], last[3], last[4], last[5])
         [] last[1] = "block" -> KBlockOk(D, WOf(size), WOf(last[2]), last[3], last[4])

-----------------------------------------------------------------------------
(* All short histories, for the implementation *)
Ops == {[op |-> "read", n |-> n] : n \in Lens}
       \cup {o \in {[op |-> "seek", whence |-> wh, n |-> o] : wh \in {"start", "cur", "end"}, o \in Offsets}
               : o.whence = "start" => o.n >= 0}
       \cup {[op |-> "block", b |-> b, n |-> n] : b \in 0..2, n \in {1, 3}}
       \cup {[op |-> "clone"]}
\* Turns: two handles which read blocks, bytes and positions, in any order
Turns == UNION {{<<[op |-> "by", n |-> h], o>> : h \in {1, 2}} :
                o \in {[op |-> "block", b |-> b, n |-> 3] : b \in 0..1}
                      \cup {[op |-> "read", n |-> 1], [op |-> "seek", whence |-> "start", n |-> 2]}}
TurnHistories == {<<[op |-> "clone"]>> \o FlattenSeq(t) : t \in [1..(ScenLen + 1) -> Turns]}
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN,
    SetToSeq({[size |-> sz, bs |-> b, ops |-> h] : sz \in {5, 6}, b \in {2, 3}, h \in [1..ScenLen -> Ops]}
             \cup {[size |-> 5, bs |-> 2, ops |-> h] : h \in TurnHistories}))
=============================================================================
