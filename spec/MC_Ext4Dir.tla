----------------------------- MODULE MC_Ext4Dir -----------------------------
(* Directories of two blocks with every short list of records in one of them:  *)
(* in use or not, with records which fit their names tightly or loosely, fill  *)
(* the block, overrun it or are too short, with or without checksums and their *)
(* tails.  A lister which steps from record to record, as an implementation    *)
(* would, never leaves the block, ends, and gives what the specification gives *)
(* and what the abstract lists say.  Each directory is a scenario.             *)
EXTENDS Ext4Build, Json, IOUtils, FiniteSets
CONSTANTS Most, Sizes, Order

Fits == {"tight", "pad", "rest", "over", "less", "none"}
Lens == {0, 1, 4}
Rec(i, n, f) == [ino |-> i, len |-> n, fit |-> f]
Recs == {Rec(i, n, f) : i \in {0, 5}, n \in Lens, f \in Fits}
Long == {Rec(5, 255, "tight"), Rec(5, 255, "rest"), Rec(6, 128, "pad")}
\* A record that does not fit is the last
Lists == {<<>>} \cup UNION {{Append(l, x) : l \in [1..k -> {r \in Recs : r.fit \in {"tight", "pad"}}], x \in Recs} : k \in 0..(Most - 1)}
         \cup {<<x>> : x \in Long} \cup {<<x, y>> : x \in Long, y \in Long}
Plain == << Rec(7, 2, "pad"), Rec(0, 3, "pad"), Rec(8, 3, "rest") >>
Flaws == {"none", "ino", "rec", "len", "type", "sum", "missing"}
Dirs == {[list |-> l, sums |-> FALSE, flaw |-> "none"] : l \in Lists}
        \cup {[list |-> l, sums |-> TRUE, flaw |-> "none"] : l \in {l \in Lists : Len(l) < 2}}
        \cup {[list |-> Plain, sums |-> TRUE, flaw |-> f] : f \in Flaws}

-----------------------------------------------------------------------------
(* Bytes of a block whose records end at limit; a list ends early with a       *)
(* record from which there is no next.                                         *)
Up4(n) == 4 * ((n + 3) \div 4)
RecLen(r, o, limit) ==
  CASE r.fit = "tight" -> 8 + r.len
    [] r.fit = "pad" -> 8 + Up4(r.len)
    [] r.fit = "rest" -> limit - o
    [] r.fit = "over" -> limit - o + 4
    [] r.fit = "less" -> 7 + r.len
    [] r.fit = "none" -> 0
NameOf(r, k) == SubSeq([j \in 1..r.len |-> IF j = 1 THEN 96 + k ELSE 47 + (j % 80)], 1, r.len)
\* Records that are there, with their offsets
Laid(list, limit) ==
  FoldLeft(LAMBDA acc, k :
             LET r == list[k]
                 rec == RecLen(r, acc.o, limit)
             IN IF acc.stop \/ acc.o + 8 > limit THEN [acc EXCEPT !.stop = TRUE]
                ELSE [o |-> acc.o + rec,
                      all |-> Append(acc.all, [o |-> acc.o, rec |-> rec, r |-> r, name |-> NameOf(r, k)]),
                      stop |-> r.fit \in {"rest", "over", "less", "none"}],
           [o |-> 0, all |-> <<>>, stop |-> FALSE], SubSeq([k \in 1..Len(list) |-> k], 1, Len(list)))
LaidBytes(list, limit) ==
  FoldLeft(LAMBDA b, e :
             LET x == RecordBytes([ino |-> e.r.ino, rec |-> e.rec, type |-> 1, len |-> e.r.len, name |-> e.name])
             IN Put(b, e.o, SubSeq(x, 1, IF limit - e.o < Len(x) THEN limit - e.o ELSE Len(x))),
           Zeros(1024), Laid(list, limit).all)
Number == WOf(13)
Gen == <<1, 2, 3, 4>>
Seeds == << Crc(Crc(Seed(SbBytes(SumSb)), Pad(Number, 4)), Gen) >>
Tailed(b, flaw) ==
  LET t == [ino |-> IF flaw = "ino" THEN 1 ELSE 0, rec |-> IF flaw = "rec" THEN 16 ELSE 12,
            len |-> IF flaw = "len" THEN 1 ELSE 0, type |-> IF flaw = "type" THEN 1 ELSE 222, name |-> <<>>]
      c == Crc(Seeds[1], SubSeq(b, 1, 1012))
  IN IF flaw = "missing" THEN b
     ELSE SubSeq(b, 1, 1012) \o RecordBytes(t) \o PairBytes(IF flaw = "sum" THEN <<c[1], c[2] ^^ 1>> ELSE c)
Limit(d) == IF d.sums THEN 1012 ELSE 1024
BytesOf(list, d, flaw) ==
  IF d.sums THEN Tailed(LaidBytes(list, 1012), flaw) ELSE LaidBytes(list, 1024)
PlainSegs == SbSegs(PlainSb, FALSE)
SumSegs == SbSegs(SumSb, TRUE)
A == 20
OtherA == 23
ImageOf(d, size) ==
  LET root == [depth |-> 0, max |-> 4,
               es |-> IF Order = "first" THEN << [first |-> 0, len |-> 1, at |-> WOf(A)], [first |-> 1, len |-> 1, at |-> WOf(OtherA)] >>
                      ELSE << [first |-> 0, len |-> 1, at |-> WOf(OtherA)], [first |-> 1, len |-> 1, at |-> WOf(A)] >>]
  IN Image(WOf(32768),
        (1 :> IF d.sums THEN SumSegs ELSE PlainSegs) @@ (2 :> DescBlock)
        @@ (5 :> TableSegs(4 :> InodeBytes(ModeDir, WOf(size), FlagExtents, Gen, RootBytes(root))))
        @@ (A :> SegsOf(BytesOf(d.list, d, d.flaw))) @@ (OtherA :> SegsOf(BytesOf(Plain, d, "none"))),
        <<>>, <<>>)

-----------------------------------------------------------------------------
(* The lister: block number, offset in it, what it gave so far *)
VARIABLES dir, size, img, fs, blk, off, got, h, phase
vars == <<dir, size, img, fs, blk, off, got, h, phase>>
Raw == InodeRaw(img, fs, Number)[1]
Init == /\ dir \in Dirs /\ size \in Sizes
        /\ img = ImageOf(dir, size) /\ fs = Fs(img)
        /\ blk = 1 /\ off = 0 /\ got = <<>> /\ h = <<Handle(img, fs, Number, Raw)>> /\ phase = "list"
Places == IF Order = "first" THEN <<A, OtherA>> ELSE <<OtherA, A>>
Bytes == At(img, WOf(1024 * Places[blk]), 1024)
Damage == [ino |-> <<-1>>, type |-> 0, name |-> <<>>]
Give(x) == got' = Append(got, x)
NextBlock == blk' = blk + 1 /\ off' = 0
Whole(k) == 1024 * k <= size
Step ==
  /\ phase = "list" /\ UNCHANGED <<dir, size, img, fs, h>>
  /\ IF blk = 3 \/ 1024 * (blk - 1) >= size THEN phase' = "listed" /\ UNCHANGED <<blk, off, got>>
     ELSE /\ phase' = phase
          /\ IF off = 0 /\ (~Whole(blk) \/ ~DirBlockOk(Bytes, 1024, h[1].seed)) THEN Give(Damage) /\ NextBlock
             ELSE LET lim == Limit(dir)
                      rec == U16(Bytes, off + 4)
                      len == B(Bytes, off + 6)
                  IN IF off + 8 > lim \/ rec > lim - off \/ rec < 8 + len
                     THEN NextBlock /\ got' = got
                     ELSE /\ IF Le(Bytes, off, 4) = <<>> THEN got' = got
                             ELSE Give([ino |-> Le(Bytes, off, 4), type |-> B(Bytes, off + 7),
                                        name |-> CString(Bytes, off + 8, len)])
                          /\ off' = off + rec /\ blk' = blk
Inside == phase = "list" => off <= Limit(dir)

(* The specification's listing of the same *)
Begin == /\ phase = "listed" /\ phase' = "check" /\ off' = 1 /\ UNCHANGED <<dir, size, img, fs, blk, got, h>>
Check ==
  /\ phase = "check" /\ UNCHANGED <<dir, size, img, fs, blk, got>>
  /\ LET o == IF off > Len(got) THEN [s |-> "ok", v |-> <<>>]
              ELSE IF got[off].ino = <<-1>> THEN [s |-> "err", v |-> <<>>] ELSE [s |-> "ok", v |-> <<got[off]>>]
     IN /\ phase' = IF ~NextEntryOk(img, fs, h[1], o) THEN "differs" ELSE IF off > Len(got) THEN "same" ELSE "check"
        /\ h' = <<NextEntryTo(img, fs, h[1], o)>>
        /\ off' = off + 1
Next == Step \/ Begin \/ Check
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(phase = "same")

(* What the abstract lists say *)
Fine(e, limit) == e.o + e.rec <= limit /\ e.rec >= 8 + e.r.len
LiveOf(list, limit) ==
  LET all == Laid(list, limit).all
      good == SelectSeq(all, LAMBDA e : Fine(e, limit) /\ e.r.ino # 0)
  IN SubSeq([k \in 1..Len(good) |->
             [ino |-> WOf(good[k].r.ino), type |-> 1, name |-> good[k].name]], 1, Len(good))
OfBlock(k) ==
  IF 1024 * (k - 1) >= size THEN <<>>
  ELSE IF ~Whole(k) THEN <<Damage>>
  ELSE IF Places[k] = A
       THEN (IF dir.sums /\ dir.flaw # "none" THEN <<Damage>> ELSE LiveOf(dir.list, Limit(dir)))
       ELSE LiveOf(Plain, Limit(dir))
Complete1 == phase \in {"check", "same"} => got = OfBlock(1) \o OfBlock(2)
NeverDiffers == phase # "differs"

-----------------------------------------------------------------------------
Most1(d) == Len(d.list) + 6
Scenario(d, s) ==
  [img |-> ImageOf(d, s),
   ops |-> << [op |-> "open"], [op |-> "file", n |-> Number] >>
           \o SubSeq([k \in 1..Most1(d) |-> [op |-> "next", h |-> 1]], 1, Most1(d))]
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN, SetToSeq({Scenario(d, s) : d \in Dirs, s \in Sizes}))
=============================================================================
