---------------------------- MODULE MC_Ext4Handles ----------------------------
(* Files and directories of one filesystem, used in any order, on one device   *)
(* with one position which they all move, and reads of it may fail.  An        *)
(* operation goes to the place it needs, and then reads there; no other handle *)
(* may come in between.  Each handle remembers only how far it got.  Whatever  *)
(* the order, each gives what it would give if it was used alone; and the sets *)
(* of states by which handles are followed through failures always have the    *)
(* true one among them, but allow no outcome from anywhere else.  Histories    *)
(* are scenarios for the implementation.                                       *)
EXTENDS Ext4Candidates, Ext4Build, Json, IOUtils, FiniteSets
CONSTANTS Used, Atomic, Faults, MaxFaults, ScenLen

-----------------------------------------------------------------------------
(* File 12: blocks 20, 21, 22, of which the last is not full.  File 13: blocks *)
(* 23 (which follows those of the other), an unwritten one, and 21 again, all  *)
(* by way of a tree block.  Directory 14: blocks 26 (two entries), 27 (none)   *)
(* and 28 (one).                                                               *)
FileA == WOf(12)
FileB == WOf(13)
DirD == WOf(14)
TreeB == 10
Ext(f, l, a) == [first |-> f, len |-> l, at |-> WOf(a)]
Leaf(m, es) == [depth |-> 0, max |-> m, es |-> es]
RootA == Leaf(4, <<Ext(0, 3, 20)>>)
NodeB == Leaf(84, <<Ext(0, 1, 23), Ext(1, 32769, 40), Ext(2, 1, 21)>>)
RootB == [depth |-> 1, max |-> 4, es |-> << [first |-> 0, at |-> WOf(TreeB)] >>]
RootD == Leaf(4, <<Ext(0, 2, 26), Ext(2, 1, 28)>>)
Rec(i, r, t, nm) ==
  LET b == RecordBytes([ino |-> i, rec |-> r, type |-> t, len |-> Len(nm), name |-> nm])
  IN b \o Zeros(r - Len(b))
Names1 == Rec(12, 12, 1, <<97>>) \o Rec(13, 1012, 1, <<98>>)
Names2 == Rec(0, 1024, 0, <<>>)
Names3 == Rec(0, 12, 1, <<120>>) \o Rec(14, 1012, 2, <<99, 100>>)
Gen == <<0, 0, 0, 0>>
Inode(mode, size, root) == InodeBytes(mode, WOf(size), FlagExtents, Gen, RootBytes(root))
Img == Image(WOf(65536),
        (1 :> SbSegs(PlainSb, FALSE)) @@ (2 :> DescBlock)
        @@ (5 :> TableSegs((3 :> Inode(ModeFile, 2500, RootA)) @@ (4 :> Inode(ModeFile, 3072, RootB))
                           @@ (5 :> Inode(ModeDir, 3072, RootD))))
        @@ (TreeB :> SegsOf(NodeBytes(NodeB)))
        @@ (26 :> SegsOf(Names1)) @@ (27 :> SegsOf(Names2)) @@ (28 :> SegsOf(Names3)),
        << <<20, 24>> >>, <<>>)
TheFs == Fs(Img)

-----------------------------------------------------------------------------
(* The concrete handles: 1 and 2 on file A, 3 on file B, 4 on directory D *)
Handles == 1..4
Zero == -1
Places == << <<20, 21, 22>>, <<20, 21, 22>>, <<23, Zero, 21>>, <<26, 27, 28>> >>
Bytes == << 2500, 2500, 3072, 3072 >>
Listed(p) == CASE p = 26 -> << [ino |-> WOf(12), type |-> 1, name |-> <<97>>],
                               [ino |-> WOf(13), type |-> 1, name |-> <<98>>] >>
               [] p = 27 -> <<>>
               [] p = 28 -> << [ino |-> WOf(14), type |-> 2, name |-> <<99, 100>>] >>
Inodes == <<FileA, FileA, FileB, DirD>>

\* pos: the device's position; busy: the handle in the middle of an operation,
\* or 0; hs: the handles; ab: the sets of states of the specification; hits:
\* where reads failed in this operation; last: the handle, where it was before,
\* and its outcome
VARIABLES pos, busy, hs, ab, hits, faults, last, good
vars == <<pos, busy, hs, ab, hits, faults, last, good>>
Fresh(k) == [next |-> 1, buf |-> <<>>, tree |-> k # 3, dead |-> FALSE, fails |-> 0]
Init ==
  /\ pos = 0 /\ busy = 0 /\ hits = <<>> /\ faults = 0 /\ last = <<>> /\ good = TRUE
  /\ hs = SubSeq([k \in Handles |-> Fresh(k)], 1, 4)
  /\ ab = SubSeq([k \in Handles |-> {Handle(Img, TheFs, Inodes[k], InodeRaw(Img, TheFs, Inodes[k])[1])}], 1, 4)

\* The place the handle needs to read next: 0 if none
Needs(k) ==
  LET c == hs[k] IN
  IF c.dead \/ c.buf # <<>> THEN 0
  ELSE IF ~c.tree THEN TreeB
  ELSE IF c.next > 3 THEN 0
  ELSE IF Places[k][c.next] = Zero THEN 0
  ELSE Places[k][c.next]
Count(k) == IF Bytes[k] >= 1024 * hs[k].next THEN 1024 ELSE Bytes[k] - 1024 * (hs[k].next - 1)
Good(v) == [s |-> "ok", v |-> v, hits |-> <<>>]
Wrong == [s |-> "err", v |-> <<>>, hits |-> hits']
Piece(n, c) == [n |-> n, tail |-> TRUE, c |-> c]
Chunk(p, n) == IF p \in 20..23 THEN << [k |-> "p", n |-> p, m |-> n, b |-> <<>>] >>
               ELSE << [k |-> "r", n |-> 0, m |-> n, b |-> At(Img, WOf(1024 * p), n)] >>
ZeroChunk(n) == << [k |-> "z", n |-> 0, m |-> n, b |-> <<>>] >>

Finish(k, c, o) ==
  /\ last' = <<k, hs[k], o>>
  /\ hs' = [hs EXCEPT ![k] = c]
  /\ busy' = 0
  /\ LET S == IF k = 4 THEN StepDir(Img, TheFs, ab[k], o, Hit(o) /\ o.s = "err")
              ELSE StepFile(Img, TheFs, ab[k], 1024, o, Hit(o) /\ o.s = "err")
     IN ab' = [ab EXCEPT ![k] = S] /\ good' = (S # {})

\* Goes to the place, if there is one to go to, or is done
Seek(k) ==
  /\ busy \in IF Atomic THEN {0, k} ELSE 0..4
  /\ busy # k \/ pos # Needs(k)           \* in an operation, for the next place
  /\ faults' = faults
  /\ hits' = IF busy = k THEN hits ELSE <<>>
  /\ IF Needs(k) # 0 THEN busy' = k /\ pos' = Needs(k) /\ UNCHANGED <<hs, ab, last, good>>
     ELSE LET c == hs[k] IN
          /\ pos' = pos
          /\ CASE c.dead -> hits' = << <<>> >> /\ Finish(k, c, Wrong)
               [] c.buf # <<>> -> Finish(k, [c EXCEPT !.buf = Tail(@)], Good(<<Head(c.buf)>>))
               [] c.next > 3 -> Finish(k, c, Good(IF k = 4 THEN <<>> ELSE Piece(0, <<>>)))
               [] OTHER -> Finish(k, [c EXCEPT !.next = @ + 1], Good(Piece(Count(k), ZeroChunk(Count(k)))))
\* Reads there
Read(k) ==
  LET c == hs[k] IN
  /\ busy = k /\ Needs(k) # 0 /\ (Atomic => pos = Needs(k))
  /\ pos' = pos + 1 /\ UNCHANGED <<faults, hits>>
  /\ IF ~c.tree THEN hs' = [hs EXCEPT ![k].tree = TRUE] /\ UNCHANGED <<busy, ab, last, good>>
     ELSE IF k = 4 THEN
       LET es == IF pos \in 26..28 THEN Listed(pos) ELSE <<>> IN
       IF es = <<>> /\ c.next < 3
       THEN hs' = [hs EXCEPT ![k].next = @ + 1] /\ UNCHANGED <<busy, ab, last, good>>
       ELSE IF es = <<>> THEN Finish(k, [c EXCEPT !.next = @ + 1], Good(<<>>))
       ELSE Finish(k, [c EXCEPT !.next = @ + 1, !.buf = Tail(es)], Good(<<Head(es)>>))
     ELSE Finish(k, [c EXCEPT !.next = @ + 1], Good(Piece(Count(k), Chunk(pos, Count(k)))))
\* Fails to.  What the handle makes of it is up to it.
Fail(k) ==
  LET c == hs[k] IN
  /\ Faults /\ faults < MaxFaults /\ faults' = faults + 1
  /\ busy = k /\ Needs(k) # 0 /\ (Atomic => pos = Needs(k))
  /\ pos' = pos /\ \E at \in {WOf(1024 * pos), Anywhere} : hits' = Append(hits, at)
  /\ \E d \in {[c EXCEPT !.fails = @ + 1],
               IF c.tree THEN [c EXCEPT !.fails = @ + 1, !.next = @ + 1] ELSE [c EXCEPT !.fails = @ + 1, !.dead = TRUE]} :
       Finish(k, d, Wrong)
Next == \E k \in Used : Seek(k) \/ Read(k) \/ Fail(k)

-----------------------------------------------------------------------------
\* Nothing but what the specification allows
AsIfAlone == good
\* The true state is among those of the specification
Position(h) == WAdd(h.done, <<>>)
Reached(k, n) == WOf(IF Bytes[k] < 1024 * n THEN Bytes[k] ELSE 1024 * n)
Follows ==
  busy = 0 => \A k \in Handles :
    IF hs[k].dead THEN \E h \in ab[k] : h.mode = "gone"
    ELSE \E h \in ab[k] : /\ h.mode = "live" /\ h.pend = hs[k].buf
                          /\ h.done = Reached(k, hs[k].next - 1)
\* Without failures there is one state
Certain == \A k \in Handles : hs[k].fails = 0 => Cardinality(ab[k]) = 1
\* Data may only come from where the handle got to, or after places which it
\* failed to read
Discerning ==
  busy = 0 => \A k \in 1..3 : \A p \in 20..23, n \in {452, 1024} :
    LET o == Good(Piece(n, Chunk(p, n))) IN
    StepFile(Img, TheFs, ab[k], 1024, o, FALSE) # {} =>
      \E j \in 1..3 : /\ Places[k][j] = p
                      /\ n = IF 1024 * j <= Bytes[k] THEN 1024 ELSE 452
                      /\ hs[k].next - hs[k].fails <= j /\ j <= hs[k].next + hs[k].fails
\* A file which was read to its end without a failure is over, and no other
NoEarlyEnd ==
  busy = 0 => \A k \in Handles :
    LET o == Good(IF k = 4 THEN <<>> ELSE Piece(0, <<>>))
        S == IF k = 4 THEN StepDir(Img, TheFs, ab[k], o, FALSE) ELSE StepFile(Img, TheFs, ab[k], 1024, o, FALSE)
    IN S # {} => hs[k].next + hs[k].fails > IF k = 4 /\ hs[k].next > 1 /\ hs[k].buf = <<>> THEN 2 ELSE 3

-----------------------------------------------------------------------------
ReadOp(h) == [op |-> "read", h |-> h, n |-> 1024]
NextOp(h) == [op |-> "next", h |-> h]
Opened(q) == << [op |-> "open"] >> \o SubSeq([k \in 1..Len(q) |-> [op |-> "file", n |-> q[k]]], 1, Len(q))
OrderOps == {ReadOp(1), ReadOp(2), ReadOp(3), NextOp(4), NextOp(5), [op |-> "stat", n |-> FileB]}
Orders(m) == {Opened(<<FileA, FileA, FileB, DirD, DirD>>) \o h : h \in [1..m -> OrderOps]}
NoFault == [op |-> "fault", bad |-> <<>>, cut |-> <<>>, fail |-> <<>>, others |-> <<>>]
FaultOps == {NoFault, [NoFault EXCEPT !.fail = <<0>>], [NoFault EXCEPT !.fail = <<1>>],
             [NoFault EXCEPT !.others = <<0>>], [NoFault EXCEPT !.others = <<1>>],
             [NoFault EXCEPT !.bad = << <<21, 22>> >>], [NoFault EXCEPT !.bad = << <<27, 28>> >>],
             [NoFault EXCEPT !.bad = << <<TreeB, TreeB + 1>> >>], [NoFault EXCEPT !.cut = <<WOf(21 * 1024 + 700)>>]}
Pairs == FaultOps \X {ReadOp(1), ReadOp(2), NextOp(3)}
After == << NoFault, ReadOp(1), ReadOp(2), NextOp(3), ReadOp(1), ReadOp(2), NextOp(3), ReadOp(1), ReadOp(2), NextOp(3) >>
Flat(q) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, q)
Troubled(m) == {Opened(<<FileA, FileB, DirD>>) \o Flat(q) \o After : q \in [1..m -> Pairs]}
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN,
    SetToSeq({[img |-> Img, ops |-> h] : h \in IF Faults THEN Troubled(ScenLen) ELSE Orders(ScenLen)}))
=============================================================================
