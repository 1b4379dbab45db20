----------------------------- MODULE MC_Ext4Tree -----------------------------
(* Extent trees of up to three nodes, which may be shared, cyclic, overlapping *)
(* or otherwise wrong.  A walk over the tree that keeps a stack, one entry at  *)
(* a time, as an implementation would, ends and produces the runs that the     *)
(* specification gives by recursion; reading what they say gives the file that *)
(* an independent definition gives: block k is where the only extent is that   *)
(* covers it.  Each tree is a scenario for the implementation.                 *)
EXTENDS Ext4Build, Json, IOUtils, FiniteSets
CONSTANTS Families, Sizes

Device == 64                              \* blocks of 1 KiB
X == 8
Y == 9
Ext(f, l, a) == [first |-> f, len |-> l, at |-> WOf(a)]
Idx(f, a) == [first |-> f, at |-> WOf(a)]
Node(d, m, es) == [depth |-> d, max |-> m, es |-> es, magic |-> TRUE]
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Nowhere == Node(0, 4, <<>>)
Tree(r, x, y) == [root |-> r, x |-> x, y |-> y]

\* Trees which are a single leaf
Extents == {Ext(f, l, a) : f \in 0..2, l \in {1, 2, 32769}, a \in {16, 63, 64}}
Odd == {Ext(0, l, a) : l \in {0, 3, 32767, 32768, 32770, 65535}, a \in {16, 62}}
Leaves0 == {Node(0, 4, es) : es \in UpTo(Extents, 2) \cup UpTo(Odd, 1)}
FlawedRoots == {Node(0, 1, <<Ext(0, 1, 16), Ext(1, 1, 17)>>), Node(0, 5, <<Ext(0, 1, 16)>>),
                Node(6, 4, <<Idx(0, X)>>), Node(5, 4, <<Idx(0, X)>>),
                [Node(0, 4, <<Ext(0, 1, 16)>>) EXCEPT !.magic = FALSE]}
Single == {Tree(r, Nowhere, Nowhere) : r \in Leaves0 \cup FlawedRoots}

\* One level of index
Roots1 == {Node(1, 4, es) : es \in UpTo({Idx(f, a) : f \in 0..1, a \in {X, Y, Device}}, 2)}
Leaves1 == {Node(0, 84, es) : es \in UpTo({Ext(0, 1, 16), Ext(1, 1, 20), Ext(1, 32769, 24)}, 2)}
Flawed1 == {Node(0, 85, <<Ext(0, 1, 16)>>), Node(1, 84, <<Idx(0, Y)>>), Node(0, 0, <<Ext(0, 1, 16)>>),
            [Node(0, 84, <<Ext(0, 1, 16)>>) EXCEPT !.magic = FALSE]}
Others1 == {Node(0, 84, <<Ext(1, 1, 18)>>), Node(0, 84, <<Ext(2, 2, 18)>>), Node(0, 84, <<Ext(0, 2, 18)>>)}
Two == {Tree(r, x, y) : r \in Roots1, x \in Leaves1 \cup Flawed1, y \in Others1}

\* Two levels, or what claims to be
Roots2 == {Node(2, 4, es) : es \in UpTo({Idx(f, a) : f \in 0..1, a \in {X, Y}}, 2)}
Middle2 == {Node(1, 84, es) : es \in UpTo({Idx(f, a) : f \in 0..1, a \in {X, Y}}, 2)}
Leaves2 == {Node(0, 84, <<Ext(0, 1, 30)>>), Node(0, 84, <<Ext(1, 1, 30)>>), Node(0, 84, <<Ext(0, 1, 30), Ext(1, 2, 31)>>),
            Node(1, 84, <<Idx(0, X)>>), Node(2, 84, <<Idx(0, X)>>)}
Three == {Tree(r, x, y) : r \in Roots2, x \in Middle2, y \in Leaves2}

Trees == (IF "single" \in Families THEN Single ELSE {}) \cup (IF "two" \in Families THEN Two ELSE {})
         \cup (IF "three" \in Families THEN Three ELSE {})

-----------------------------------------------------------------------------
(* The filesystem with a tree: inode 12 is a file, with or without checksums   *)
Number == WOf(12)
Gen == <<7, 0, 0, 9>>
Demagic(nd, b) == IF nd.magic THEN b ELSE Put(b, 0, <<0>>)
PlainSegs == SbSegs(PlainSb, FALSE)
SumSegs == SbSegs(SumSb, TRUE)
Seeds == << Crc(Crc(Seed(SbBytes(SumSb)), Pad(Number, 4)), Gen) >>
Block(nd, sums) ==
  LET b == Demagic(nd, Slice(NodeBytes(nd), 0, 12 + 12 * nd.max))
  IN IF Len(b) > 1024 THEN SegsOf(SubSeq(b, 1, 1024))
     ELSE IF sums /\ Len(b) <= 1020 THEN SegsOf(b \o PairBytes(Crc(Seeds[1], b))) ELSE SegsOf(b)
ImageOf(t, size, sums) ==
  Image(WOf(1024 * Device),
        (1 :> IF sums THEN SumSegs ELSE PlainSegs) @@ (2 :> DescBlock)
        @@ (5 :> TableSegs(3 :> InodeBytes(ModeFile, WOf(size), FlagExtents, Gen, Demagic(t.root, RootBytes(t.root)))))
        @@ (X :> Block(t.x, sums)) @@ (Y :> Block(t.y, sums)),
        << <<16, Device>> >>, <<>>)
MostFor(bytes) == (bytes + 1023) \div 1024

-----------------------------------------------------------------------------
(* The walk.  A frame is <<node, entry to look at next>>. *)
VARIABLES tree, size, img, fs, stack, pos, out, h, got, phase
vars == <<tree, size, img, fs, stack, pos, out, h, got, phase>>

Raw == InodeRaw(img, fs, Number)[1]
RootOf == Slice(Raw, 40, 60)
Init ==
  /\ tree \in Trees /\ size \in Sizes
  /\ img = ImageOf(tree, size, FALSE)
  /\ fs = Fs(img)
  /\ IF RootOk(Raw) THEN phase = "walk" /\ stack = << <<RootOf, 0>> >> ELSE phase = "invalid" /\ stack = <<>>
  /\ pos = 0 /\ out = <<>> /\ h = <<>> /\ got = <<>>

Top == stack[Len(stack)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Emit(r) == out' = Append(out, r)
Break(gap) == /\ Emit([t |-> "break", gap |-> gap, len |-> 0, init |-> TRUE, at |-> <<>>])
              /\ stack' = Pop(stack) /\ pos' = pos
Walk ==
  /\ phase = "walk" /\ UNCHANGED <<tree, size, img, fs, h, got>>
  /\ IF stack = <<>> THEN phase' = "walked" /\ UNCHANGED <<stack, pos, out>>
     ELSE
       LET nd == Top[1]
           e == Top[2]
           o == 12 + 12 * e
           first == Le(nd, o, 4)
           Advance == [stack EXCEPT ![Len(stack)][2] = @ + 1]
       IN /\ phase' = phase
          /\ IF e >= Entries(nd) THEN stack' = Pop(stack) /\ UNCHANGED <<pos, out>>
             ELSE IF first # WOf(pos) THEN Break(WLt(WOf(pos), first) /\ (Depth(nd) > 0 \/ U16(nd, o + 4) # 0))
             ELSE IF Depth(nd) = 0 THEN
               LET raw == U16(nd, o + 4) IN
               IF raw = 0 THEN Break(FALSE)
               ELSE /\ Emit([t |-> "run", gap |-> FALSE, len |-> ExtentLen(raw), init |-> raw <= 32768,
                             at |-> WNorm(LeBytes(nd, o + 8, 4) \o LeBytes(nd, o + 6, 2))])
                    /\ pos' = pos + ExtentLen(raw) /\ stack' = Advance
             ELSE
               LET at == WNorm(LeBytes(nd, o + 4, 4) \o LeBytes(nd, o + 8, 2)) IN
               IF ~WLt(at, WOf(Device)) THEN Break(FALSE)
               ELSE LET sub == At(img, WMulS(at, 1024), 1024) IN
                    IF ~NodeOk(sub, 1024, <<>>) \/ Entries(sub) = 0 \/ Depth(sub) # Depth(nd) - 1
                    THEN Break(FALSE)
                    ELSE stack' = Append(Advance, <<sub, 0>>) /\ UNCHANGED <<pos, out>>
Expected == Runs(img, fs, <<>>, RootOf)
Refines ==
  CASE phase = "walk" -> TRUE
    [] phase = "walked" -> out = Expected
    [] OTHER -> TRUE
Bounded == phase # "invalid" => Len(stack) <= MaxDepth + 1

-----------------------------------------------------------------------------
(* Reading it all: what comes next, as the specification of reading says       *)
Begin == /\ phase = "walked" /\ phase' = "read"
         /\ h' = Handle(img, fs, Number, Raw)
         /\ UNCHANGED <<tree, size, img, fs, stack, pos, out, got>>
Read == /\ phase = "read"
        /\ LET u == Upcoming(img, fs, h) IN
           /\ got' = Append(got, u)
           /\ h' = Advanced(h, u)
           /\ phase' = IF u.c \in {"end", "past", "short"} THEN "over" ELSE "read"
        /\ UNCHANGED <<tree, size, img, fs, stack, pos, out>>
Next == Walk \/ Begin \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(phase \in {"over", "invalid"})

\* The file by an independent definition, from the abstract tree
At0(a) == IF a = WOf(X) THEN tree.x ELSE tree.y
Valid(nd) == nd.magic /\ nd.max <= 83 + 1 /\ Len(nd.es) <= nd.max /\ nd.es # <<>>
RECURSIVE Covering(_, _)
Covering(nd, k) ==
  IF nd.depth = 0
  THEN {e \in Range(nd.es) : e.first <= k /\ k < e.first + ExtentLen(e.len)}
  ELSE UNION {IF e.at \in {WOf(X), WOf(Y)} /\ Valid(At0(e.at)) /\ At0(e.at).depth = nd.depth - 1
              THEN Covering(At0(e.at), k) ELSE {} : e \in Range(nd.es)}
Sum(q) == FoldLeft(LAMBDA a, u : a + u.n, 0, q)
Pieces == SelectSeq(got, LAMBDA u : u.n > 0)
\* Never more than the size, and each block from the extent that covers it
NeverMore == Sum(got) <= size
\* Whatever went wrong before it, a block has the contents of an extent that
\* covers it
RightPlace ==
  \A j \in 1..Len(Pieces) : LET u == Pieces[j] IN
    /\ u.n = IF j * 1024 <= size THEN 1024 ELSE size - (j - 1) * 1024
    /\ \E e \in Covering(tree.root, j - 1) :
         IF u.c = "zeros" THEN e.len > 32768
         ELSE /\ e.len <= 32768
              /\ (u.c = "data" => u.at = WMulS(WAdd(e.at, WOf(j - 1 - e.first)), 1024))
              /\ (u.c = "unreadable" => WLe(WOf(Device), WAdd(e.at, WOf(j - 1 - e.first))))
\* The file is complete exactly if it ends without an error
Complete1 ==
  phase = "over" =>
    LET clean == \A j \in 1..Len(got) : got[j].c \in {"data", "zeros", "end"} IN
    clean => /\ Sum(got) = size
             /\ \A k \in 0..(MostFor(size) - 1) : Covering(tree.root, k) # {}

-----------------------------------------------------------------------------
Op(o) == [op |-> o]
Ops(s) == << Op("open"), [op |-> "file", n |-> Number] >>
          \o SubSeq([k \in 1..(MostFor(s) + 2) |-> [op |-> "read", h |-> 1, n |-> 1024]], 1, MostFor(s) + 2)
Scenario(t, s, sums) == [img |-> ImageOf(t, s, sums), ops |-> Ops(s)]
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN,
    SetToSeq({Scenario(t, s, FALSE) : t \in Trees, s \in Sizes}
             \cup {Scenario(t, 2500, TRUE) : t \in {t \in Trees : t.root.depth > 0 /\ Len(t.root.es) = 1}}))
=============================================================================
