---------------------------- MODULE MC_Ext4Damage ----------------------------
(* What checksums protect.  A small filesystem, with metadata checksums seeded *)
(* by its identity or by a recorded seed, or without any, suffers: bits of its *)
(* superblock, of a block of a tree or of a block of a directory change, such  *)
(* a block is overwritten by one of another file, or the identity, the seed or *)
(* the file's generation becomes another.  By the abstract account of it, a    *)
(* structure may be used if nothing in what its checksum covers is changed and *)
(* it was sealed for the file which it is used for.  The specification, which  *)
(* decides by the bytes, always says the same; damage to one structure never   *)
(* has an effect on others; and without the feature nothing depends on any     *)
(* checksum.  Every state is a scenario.                                       *)
EXTENDS Ext4Build, Json, IOUtils, FiniteSets
CONSTANTS Most, Stride, Bits, ScenStride

TreeMax == 20
TreeAt == 10
DirAt == 26
FileA == 12
FileB == 13
DirD == 14
Kinds == {"sum", "seed", "none"}
Places == {"sb", "tree", "dir"}
NoHit == [p |-> "", o |-> 0, bit |-> 0]

-----------------------------------------------------------------------------
(* The abstract state *)
VARIABLE st
Clean(kind) == [kind |-> kind, uuid |-> 0, seed |-> 0, gen |-> 0, foreign |-> {}, blank |-> {}, hits |-> {}]
Events(s) == s.uuid + s.seed + s.gen + Cardinality(s.foreign) + Cardinality(s.blank) + Cardinality(s.hits)
TreeEnd == 12 + 12 * TreeMax
Covered(h) == h.p # "tree" \/ h.o < TreeEnd + 4
\* Without the feature only the places where checksums would be are changed
InChecksum(h) == CASE h.p = "sb" -> h.o >= 1020 [] h.p = "tree" -> h.o >= TreeEnd [] h.p = "dir" -> FALSE
\* The feature itself is not protected by what it says
OfFeature(h) == h.p = "sb" /\ h.o = 101 /\ h.bit = 2
HitsAt(offsets, bits) == {h \in {[p |-> p, o |-> o, bit |-> b] : p \in Places, o \in offsets, b \in bits} : ~OfFeature(h)}
Allowed(s, h) == s.kind # "none" \/ InChecksum(h)
Offsets == {o \in 0..1023 : o % Stride = 0} \cup 1020..1023 \cup TreeEnd..(TreeEnd + 3)
\* Two changes of one bit are none
Toggle(s, h) == [s EXCEPT !.hits = IF h \in @ THEN @ \ {h} ELSE @ \cup {h}]
Hits(s, bits) == {h \in HitsAt(Offsets, bits) : Allowed(s, h)}
Init == st \in {Clean(k) : k \in Kinds}
Hit == \E h \in Hits(st, Bits) : st' = Toggle(st, h)
\* Another bit for another byte, so that one change of each byte is explored
OneBit == \E o \in Offsets : \E h \in Hits(st, {o % 8}) : h.o = o /\ st' = Toggle(st, h)
Swap == \E p \in {"tree", "dir"} : st.kind # "none" /\ st' = [st EXCEPT !.foreign = @ \cup {p}, !.blank = @ \ {p}]
Blank == \E p \in {"tree", "dir"} : st.kind # "none" /\ st' = [st EXCEPT !.blank = @ \cup {p}, !.foreign = @ \ {p}]
Rename == \/ st' = [st EXCEPT !.uuid = 1 - @]
          \/ st' = [st EXCEPT !.seed = 1 - @]
          \/ st' = [st EXCEPT !.gen = 1 - @]
Next == /\ Events(st) < Most
        /\ (IF Bits = {} THEN OneBit ELSE Hit) \/ Swap \/ Blank \/ Rename
Spec == Init /\ [][Next]_st

Sums(s) == s.kind # "none"
Hurt(s, p) == \E h \in s.hits : h.p = p /\ Covered(h)
SameIdentity(s) == (IF s.kind = "seed" THEN s.seed = 0 ELSE s.uuid = 0)
ShouldOpen(s) == Sums(s) => ~Hurt(s, "sb")
ShouldUse(s, p) == Sums(s) => SameIdentity(s) /\ s.gen = 0 /\ p \notin s.foreign \cup s.blank /\ ~Hurt(s, p)

-----------------------------------------------------------------------------
(* Its bytes *)
Uuids == << SubSeq([k \in 1..16 |-> 16 * k - 1], 1, 16), SubSeq([k \in 1..16 |-> 16 * k - 9], 1, 16) >>
SeedValues == << <<9, 8, 7, 6>>, <<9, 8, 7, 134>> >>
Gens == << <<1, 2, 3, 4>>, <<1, 2, 3, 5>> >>
SbOf(kind, uuid, seed) ==
  LET v == Override(IF kind = "none" THEN PlainSb ELSE SumSb, "uuid", Uuids[uuid + 1])
  IN IF kind = "seed"
     THEN Override(Override(v, "incompat", WOf(FeatureExtents + 2 + FeatureCsumSeed)), "seed", SeedValues[seed + 1])
     ELSE Override(v, "seed", SeedValues[seed + 1])
SealOf(kind, n) ==
  IF kind = "none" THEN <<>>
  ELSE << Crc(Crc(Seed(SbBytes(SbOf(kind, 0, 0))), Pad(WOf(n), 4)), Gens[1]) >>
\* What does not change, once for each kind
SbBlock == [k \in Kinds |-> [u \in 0..1 |-> [s \in 0..1 |-> SealSb(SbBytes(SbOf(k, u, s)))]]]
Ex(f, l, a) == [first |-> f, len |-> l, at |-> WOf(a)]
Node == [depth |-> 0, max |-> TreeMax, es |-> <<Ex(0, 1, 20), Ex(1, 1, 22)>>]
Full(b) == b \o Zeros(1024 - Len(b))
\* Foreign ones are those of file 13
Owner(p, foreign) == IF foreign THEN FileB ELSE IF p = "tree" THEN FileA ELSE DirD
TreeBlock(kind, foreign) ==
  LET b == Slice(NodeBytes(Node), 0, TreeEnd)
      s == SealOf(kind, Owner("tree", foreign))
  IN Full(IF s = <<>> THEN b ELSE b \o PairBytes(Crc(s[1], b)))
Rec(i, r, t, nm) ==
  LET b == RecordBytes([ino |-> i, rec |-> r, type |-> t, len |-> Len(nm), name |-> nm])
  IN b \o Zeros(r - Len(b))
DirBlock(kind, foreign, last) ==
  LET s == SealOf(kind, Owner("dir", foreign))
      limit == IF s = <<>> THEN 1024 ELSE 1012
      b == Rec(12, 12, 1, <<97>>) \o Rec(0, 16, 1, <<98, 99>>) \o Rec(13, limit - 28, 1, <<100, last>>)
  IN IF s = <<>> THEN b
     ELSE b \o RecordBytes([ino |-> 0, rec |-> 12, len |-> 0, type |-> 222, name |-> <<>>]) \o PairBytes(Crc(s[1], b))
Blocks == [k \in Kinds |-> [f \in BOOLEAN |-> [p \in {"tree", "dir"} |->
            IF p = "tree" THEN TreeBlock(k, f) ELSE DirBlock(k, f, 101)]]]
OtherDir == [k \in Kinds |-> SegsOf(DirBlock(k, FALSE, 102))]
Power(bit) == 2^bit
Changed(b, s, p) ==
  FoldLeft(LAMBDA x, h : Put(x, h.o, <<x[h.o + 1] ^^ Power(h.bit)>>), b,
           SetToSeq({h \in s.hits : h.p = p}))
BlockOf(s, p) ==
  IF p \in s.blank THEN SegsOf(Changed(Zeros(1024), s, p))
  ELSE SegsOf(Changed(Blocks[s.kind][(p \in s.foreign)][p], s, p))
Inode(mode, size, gen, root) == InodeBytes(mode, WOf(size), FlagExtents, Gens[gen + 1], RootBytes(root))
RootA == [depth |-> 1, max |-> 4, es |-> << [first |-> 0, at |-> WOf(TreeAt)] >>]
RootB == [depth |-> 0, max |-> 4, es |-> << Ex(0, 2, 22) >>]
RootD == [depth |-> 0, max |-> 4, es |-> << Ex(0, 2, DirAt) >>]
Tables == [g \in 0..1 |->
  TableSegs((FileA - 9 :> Inode(ModeFile, 2000, g, RootA)) @@ (FileB - 9 :> Inode(ModeFile, 2048, g, RootB))
            @@ (DirD - 9 :> Inode(ModeDir, 2048, g, RootD)))]
ImageOf(s) ==
  Image(WOf(65536),
        (1 :> SegsOf(Changed(SbBlock[s.kind][s.uuid][s.seed], s, "sb"))) @@ (2 :> DescBlock)
        @@ (5 :> Tables[s.gen])
        @@ (TreeAt :> BlockOf(s, "tree")) @@ (DirAt :> BlockOf(s, "dir")) @@ (DirAt + 1 :> OtherDir[s.kind]),
        << <<20, 24>> >>, <<>>)

-----------------------------------------------------------------------------
(* What the specification says about the bytes *)
HandleOf(img, fs, n) == Handle(img, fs, WOf(n), InodeRaw(img, fs, WOf(n))[1])
AllRuns(h) == \A k \in 1..Len(h.runs) : h.runs[k].t = "run"
Agrees ==
  LET img == ImageOf(st) IN
  /\ MayOpen(img) = MustOpen(img)
  /\ MayOpen(img) = ShouldOpen(st)
  /\ ShouldOpen(st) =>
       LET fs == Fs(img)
           a == HandleOf(img, fs, FileA)
           b == HandleOf(img, fs, FileB)
           d == HandleOf(img, fs, DirD)
           f == Fill(img, fs, d)
           g == Fill(img, fs, [f.h EXCEPT !.pend = <<>>])
       IN /\ AllRuns(a) = ShouldUse(st, "tree")
          /\ AllRuns(a) => Len(a.runs) = 2 /\ a.runs[1].at = WOf(20) /\ a.runs[2].at = WOf(22)
          /\ AllRuns(b) /\ Len(b.runs) = 1 /\ b.runs[1].at = WOf(22)
          /\ (f.r = "entries") = ShouldUse(st, "dir")
          /\ f.r \in {"entries", "err"}
          /\ f.r = "entries" => Len(f.h.pend) = 2 /\ f.h.pend[2].name = <<100, 101>>
          \* The other block is as it was
          /\ (g.r = "entries") = (Sums(st) => SameIdentity(st) /\ st.gen = 0)
          /\ g.r = "entries" => Len(g.h.pend) = 2 /\ g.h.pend[2].name = <<100, 102>>

-----------------------------------------------------------------------------
Ops == << [op |-> "open"], [op |-> "file", n |-> WOf(FileA)], [op |-> "file", n |-> WOf(DirD)],
          [op |-> "file", n |-> WOf(FileB)] >>
       \o << [op |-> "read", h |-> 1, n |-> 1024], [op |-> "read", h |-> 1, n |-> 1024], [op |-> "read", h |-> 1, n |-> 1024],
             [op |-> "next", h |-> 2], [op |-> "next", h |-> 2], [op |-> "next", h |-> 2], [op |-> "next", h |-> 2],
             [op |-> "next", h |-> 2], [op |-> "read", h |-> 3, n |-> 2048] >>
\* One changed bit: each byte has its turn
Singles(kind, stride) ==
  {Toggle(Clean(kind), h) : h \in
     {h \in UNION {HitsAt({o}, {(o + o \div 8) % 8}) : o \in {o \in 0..1023 : o % stride = 0 \/ o >= 1012 \/ o \in (TreeEnd - 2)..(TreeEnd + 5)}} :
        Allowed(Clean(kind), h)}}
\* Neighbouring bits: whatever of four bytes is compared, a change is seen
Bursts == {Toggle(Toggle(Clean("sum"), a), b) : a \in HitsAt({0, 4, 6, 96, 104, 1012, 1016, 1020, 1021, TreeEnd}, {0, 7}),
                                                 b \in HitsAt({1, 5, 7, 105, 1014, 1018, 1022, 1023, TreeEnd + 3}, {3})}
Others(kind) ==
  {[[Clean(kind) EXCEPT !.uuid = u, !.seed = s] EXCEPT !.gen = g] : u \in 0..1, s \in 0..1, g \in 0..1}
  \cup (IF kind = "none" THEN {}
        ELSE {[Clean(kind) EXCEPT !.foreign = f, !.blank = {"tree", "dir"} \ f] : f \in SUBSET {"tree", "dir"}}
             \cup {[Clean(kind) EXCEPT !.foreign = f] : f \in SUBSET {"tree", "dir"}}
             \cup {[Clean(kind) EXCEPT !.blank = f] : f \in SUBSET {"tree", "dir"}})
States(dummy) ==
  Singles("sum", ScenStride) \cup Singles("seed", 16 * ScenStride) \cup Singles("none", 1)
  \cup {s \in Bursts : \A h1 \in s.hits : \A h2 \in s.hits : h1.p = h2.p} \cup UNION {Others(k) : k \in Kinds}
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN, SetToSeq({[img |-> ImageOf(s), ops |-> Ops] : s \in States(0)}))
=============================================================================
