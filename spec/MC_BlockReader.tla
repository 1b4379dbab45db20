--------------------------- MODULE MC_BlockReader ---------------------------
(* A reader that keeps a block number and a byte number within the block, as   *)
(* an implementation would, refines the reader with a byte cursor: two handles *)
(* on a small device, every operation in every state.                          *)
EXTENDS BlockReader, TLC, Json, IOUtils, FiniteSets
OffsetsQ == {-3, -1, 0, 4}
OffsetsT == {-7, -3, -1, 0, 1, 2, 4}
CONSTANTS Sizes, BlockSizes, Lens, Offsets, Limit, ScenLen

Content(n) == << [off |-> <<>>, b |-> SubSeq([k \in 1..n |-> 10 + k], 1, n)] >>
Dev(sz, b) == [size |-> WOf(sz), bs |-> b, segs |-> Content(sz), bad |-> <<>>]

VARIABLES size, bs, cur, blk, byt, last
vars == <<size, bs, cur, blk, byt, last>>
D == Dev(size, bs)
Handles == {1, 2}
Count == size \div bs

Init ==
  /\ size \in Sizes /\ bs \in BlockSizes
  /\ cur = [h \in Handles |-> <<>>]
  /\ blk = [h \in Handles |-> 0] /\ byt = [h \in Handles |-> 0]
  /\ last = <<>>

Set(h, c, b, y) == cur' = [cur EXCEPT ![h] = c] /\ blk' = [blk EXCEPT ![h] = b]
                   /\ byt' = [byt EXCEPT ![h] = y]
\* The concrete reader
ReadResult(h, n) ==
  IF blk[h] >= Count THEN <<>>
  ELSE LET m == IF n < bs - byt[h] THEN n ELSE bs - byt[h] IN
       SubSeq([k \in 1..m |-> 10 + blk[h] * bs + byt[h] + k], 1, m)
Read(h, n) ==
  LET r == [s |-> "ok", v |-> ReadResult(h, n), hit |-> FALSE]
      t == byt[h] + Len(r.v)
  IN /\ last' = <<"read", cur[h], n, r>>
     /\ Set(h, ReadTo(cur[h], r), IF t >= bs THEN blk[h] + 1 ELSE blk[h],
            IF t >= bs THEN t - bs ELSE t)
     /\ UNCHANGED <<size, bs>>
Off(o) == IF o < 0 THEN [neg |-> TRUE, n |-> WOf(-o)] ELSE [neg |-> FALSE, n |-> WOf(o)]
\* The device fails: nothing moves
Fails(h, n) ==
  /\ \E wh \in {"start", "cur", "end"} :
       last' \in {<<"read", cur[h], n, [s |-> "err", v |-> <<>>, hit |-> TRUE]>>,
                 <<"seek", cur[h], wh, Off(n), [s |-> "err", v |-> <<>>, hit |-> TRUE]>>}
  /\ UNCHANGED <<size, bs, cur, blk, byt>>
Seek(h, wh, o) ==
  LET base == CASE wh = "start" -> 0 [] wh = "cur" -> blk[h] * bs + byt[h] [] wh = "end" -> Count * bs
      t == base + o
      r == IF t < 0 THEN [s |-> "err", v |-> <<>>, hit |-> FALSE]
           ELSE [s |-> "ok", v |-> WOf(t), hit |-> FALSE]
  IN /\ (wh = "start" => o >= 0) /\ t <= Limit
     /\ last' = <<"seek", cur[h], wh, Off(o), r>>
     /\ IF t < 0 THEN UNCHANGED <<cur, blk, byt>> ELSE Set(h, SeekTo(cur[h], r), t \div bs, t % bs)
     /\ UNCHANGED <<size, bs>>
Clone == /\ cur' = [cur EXCEPT ![2] = cur[1]] /\ blk' = [blk EXCEPT ![2] = blk[1]]
         /\ byt' = [byt EXCEPT ![2] = byt[1]] /\ last' = <<>> /\ UNCHANGED <<size, bs>>
Next == \/ \E h \in Handles, n \in Lens : Read(h, n) \/ Fails(h, n)
        \/ \E h \in Handles, wh \in {"start", "cur", "end"}, o \in Offsets : Seek(h, wh, o)
        \/ Clone

Refines == \A h \in Handles : byt[h] \in 0..(bs - 1) /\ cur[h] = WOf(blk[h] * bs + byt[h])
Permitted ==
  IF last = <<>> THEN TRUE
  ELSE IF last[1] = "read" THEN ReadOk(D, last[2], last[3], last[4])
  ELSE SeekOk(D, last[2], last[3], last[4], last[5])

-----------------------------------------------------------------------------
(* All short histories, for the implementation *)
Op == {[op |-> "read", n |-> n] : n \in Lens}
      \cup {[op |-> "seek", whence |-> wh, n |-> o] : wh \in {"start", "cur", "end"}, o \in Offsets}
      \cup {[op |-> "clone"], [op |-> "other"]}
ValidOp(o) == o.op = "seek" => (o.whence = "start" => o.n >= 0)
Ops == {o \in Op : ValidOp(o)}
OpSeq == SetToSeq(Ops)
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN,
    SetToSeq({[size |-> sz, bs |-> b, ops |-> h] :
                sz \in {5, 6}, b \in {2, 3}, h \in [1..ScenLen -> Ops]}))
=============================================================================
