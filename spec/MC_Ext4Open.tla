----------------------------- MODULE MC_Ext4Open -----------------------------
(* Which filesystems are opened: every special value of every field of the     *)
(* superblock that has a say (and of some that have none), alone and in pairs, *)
(* with a right, a wrong or no checksum.  Opening is shown to depend on        *)
(* nothing but what it should: a field without a say never matters, an         *)
(* unsupported value is not made good by any other field but those which say   *)
(* what it means.  Each superblock is a scenario for the implementation.       *)
EXTENDS Ext4Build, Json, IOUtils, FiniteSets
CONSTANT Fields

Bits == {Slice(WPow2(k), 0, 4) : k \in 0..31}
Low == {WOf(k) : k \in {0, 1, 2, 3, 5, 6, 7, 8}}
Top4 == {<<255, 255, 255, 255>>, <<0, 0, 0, 128>>}
\* The interesting values of a field
Values(f) ==
  CASE f = "magic" -> {<<>>, <<83, 238>>, <<82, 239>>, <<239, 83>>}
    [] f \in {"log_bs", "log_cluster"} -> Low \cup Top4 \cup {WOf(52), WOf(53), WOf(63), WOf(64)}
    [] f \in {"bpg", "cpg"} -> Top4 \cup {<<>>, WOne, WOf(8), WOf(62), WOf(63), WOf(64), WOf(8191)}
    [] f \in {"ipg", "inodes"} -> Top4 \cup {<<>>, WOne, WOf(8), WOf(17)}
    [] f = "errors" -> {<<>>, WOf(2), WOf(3), WOf(4), <<1, 1>>, <<255, 255>>}
    [] f = "log_flex" -> {WOne, WOf(31), WOf(62), WOf(63), WOf(64), WOf(255)}
    [] f = "csum_type" -> {<<>>, WOne, WOf(2), WOf(255)}
    [] f = "desc_size" -> {<<>>, WOne, WOf(31), WOf(32), WOf(33), WOf(63), WOf(64), WOf(65), WOf(128), <<0, 4>>, <<255, 255>>}
    [] f = "inode_size" -> {<<>>, WOne, WOf(127), WOf(130), WOf(160), WOf(256), WOf(1024), <<0, 8>>, <<255, 255>>}
    [] f = "os" -> {WOne, WOf(2), WOf(4)} \cup Top4
    [] f = "blocks" -> Top4 \cup {<<>>, WOne, WOf(2), WOf(63), WOf(8192), WOf(8193), WOf(8194), WOf(16385)}
    [] f = "blocks_high" -> {WOne, <<255, 255, 255, 255>>}
    [] f = "first_data" -> {<<>>, WOf(2), WOf(3), WOf(62), WOf(63), WOf(64)} \cup Top4
    [] f = "incompat" -> {<<>>, WOf(2), WOf(64)} \cup {WAdd(WOf(64), WNorm(b)) : b \in Bits}
    [] f = "ro_compat" -> {WNorm(b) : b \in Bits} \cup {WOf(1536)} \cup Top4
    [] f = "revision" -> {<<>>, WOf(2)} \cup Top4
    [] f = "state" -> {<<>>, WOf(2), <<255, 255>>}
    [] f = "seed" -> Top4
    [] OTHER -> {<<255>>, WOne}
Relevant == {"magic", "log_bs", "log_cluster", "bpg", "cpg", "ipg", "errors", "log_flex", "csum_type",
             "desc_size", "inode_size", "os", "blocks", "blocks_high", "first_data", "incompat", "ro_compat"}
Irrelevant == SbNames \ Relevant
Changes == UNION {{[f |-> f, x |-> x] : x \in Values(f)} : f \in Fields}
Bases == {"plain", "sum"}
BaseOf(b) == IF b = "plain" THEN PlainSb ELSE SumSb
Apply(v, c) == Override(v, c.f, c.x)
\* Superblocks with up to two changes; the checksum is right unless spoiled
Seals == {"right", "wrong", "zero"}
One == {[base |-> b, cs |-> <<c>>, seal |-> s] : b \in Bases, c \in Changes, s \in {"right"}}
       \cup {[base |-> b, cs |-> <<>>, seal |-> s] : b \in Bases, s \in Seals}
       \cup {[base |-> b, cs |-> <<c>>, seal |-> s] : b \in Bases, s \in Seals,
                c \in {c \in Changes : c.f \in {"csum_type", "ro_compat"}}}
Pairs == {<<"log_bs", "log_cluster">>, <<"bpg", "cpg">>, <<"incompat", "desc_size">>, <<"blocks", "first_data">>,
          <<"blocks", "bpg">>, <<"log_bs", "first_data">>, <<"ro_compat", "log_cluster">>,
          <<"blocks", "blocks_high">>, <<"ro_compat", "csum_type">>, <<"log_bs", "inode_size">>, <<"ro_compat", "cpg">>,
          <<"blocks_high", "bpg">>}
TwoOf(p) == {[base |-> "plain", cs |-> <<[f |-> p[1], x |-> x], [f |-> p[2], x |-> y]>>, seal |-> "right"] :
               x \in Values(p[1]), y \in Values(p[2])}
Two == UNION {TwoOf(p) : p \in {p \in Pairs : p[1] \in Fields /\ p[2] \in Fields}}
\* Where cluster size equals block size unless BIGALLOC, both must change together
Both == {[base |-> b, cs |-> <<[f |-> "log_bs", x |-> x], [f |-> "log_cluster", x |-> x]>>, seal |-> "right"] :
           b \in Bases, x \in IF "log_bs" \in Fields THEN Values("log_bs") ELSE {}}
        \cup {[base |-> b, cs |-> <<[f |-> "bpg", x |-> x], [f |-> "cpg", x |-> x]>>, seal |-> "right"] :
           b \in Bases, x \in IF "bpg" \in Fields THEN Values("bpg") ELSE {}}
All == One \cup Two \cup Both

ValuesOf(s) == FoldLeft(Apply, BaseOf(s.base), s.cs)
BytesOf(s) ==
  LET b == SbBytes(ValuesOf(s)) IN
  CASE s.seal = "right" -> IF s.base = "sum" \/ \E k \in 1..Len(s.cs) : s.cs[k].f = "ro_compat" THEN SealSb(b) ELSE b
    [] s.seal = "zero" -> b
    [] s.seal = "wrong" -> LET c == SealSb(b) IN [c EXCEPT ![1021] = @ ^^ 4]
ImageOf(s) == Image(WOf(65536), (1 :> SegsOf(BytesOf(s))) @@ (2 :> DescBlock), <<>>, <<>>)

VARIABLES s, opened
vars == <<s, opened>>
Init == s \in All /\ opened = "not tried"
Open == opened = "not tried" /\ s' = s /\ opened' = IF MustOpen(ImageOf(s)) THEN "must" ELSE IF MayOpen(ImageOf(s)) THEN "may" ELSE "no"
Next == Open

Must == opened = "must"
Can == opened \in {"must", "may"}
Changed == {s.cs[k].f : k \in 1..Len(s.cs)}
V(f) == IF f \in DOMAIN ValuesOf(s) THEN WNorm(ValuesOf(s)[f]) ELSE <<>>
Has(f, k) == Bit(Pad(V(f), 4), 0, k)
Tried == opened # "not tried"
\* What has no say does not matter, as long as there is no checksum or a right one
NoSay == (Tried /\ Changed \subseteq Irrelevant /\ s.seal = "right") => Must
\* With the feature, only a right checksum will do; without, any will
Checksums == (Tried /\ Changed = {}) => (Must <=> (s.base = "plain" \/ s.seal = "right"))
             /\ ((Tried /\ Has("ro_compat", 10) /\ s.seal # "right") => ~Can)
\* Each clause on its own
Clauses ==
  Can =>
    /\ V("magic") = <<83, 239>>
    /\ WLe(V("log_bs"), WOf(6))
    /\ V("bpg") # <<>> /\ V("ipg") # <<>>
    /\ V("os") = <<>> /\ V("errors") \in {WOf(1), WOf(2), WOf(3)}
    /\ Has("incompat", 6)
    /\ \A k \in {5, 11} \cup 17..31 : ~Has("incompat", k)
    /\ WLe(WOf(128), V("inode_size"))
    /\ (Has("incompat", 7) => V("desc_size") # <<>>)
    /\ (V("log_bs") # V("log_cluster") => Has("ro_compat", 9))
    /\ (Has("ro_compat", 10) => V("csum_type") = WOne)
\* A filesystem with one group whose descriptors are in reach is opened
\* whatever else its size
OneGroup ==
  (Tried /\ s.seal = "right" /\ Changed \subseteq {"blocks"} /\ WLt(V("blocks"), WOf(8193))) => Must
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN,
    SetToSeq({[img |-> ImageOf(x), ops |-> << [op |-> "open"] >>] : x \in All}))
=============================================================================
