----------------------------- MODULE MC_MdSearch -----------------------------
(* The search for a device's superblock, place by place.  At each place there  *)
(* may be a superblock of either version, one of a kind nobody knows, nothing, *)
(* or something that cannot be read; places may coincide.  The searcher looks  *)
(* at one place after the other, stops at the first superblock which belongs   *)
(* there, and passes over everything else.  It finds what the specification    *)
(* says; no failure to read one place hides a superblock in another; whatever  *)
(* is found is a right one, and none of a later version is there.  Every       *)
(* device is a scenario.                                                       *)
EXTENDS MdDiscovery, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Sizes, ScenSizes

Contents == {"none", "v1", "v0", "unknown", "bad"}
Offsets(size) == {Places(WOf(size))[k][3] : k \in 1..Len(Places(WOf(size)))}
Devices(sizes) == UNION {{[size |-> s, at |-> a] : a \in [Offsets(s) -> Contents]} : s \in {s \in sizes : s >= 12288}}
                  \cup {[size |-> s, at |-> <<>>] : s \in {s \in sizes : s < 12288}}

VARIABLES dev, k, found
vars == <<dev, k, found>>
P == Places(WOf(dev.size))
Init == dev \in Devices(Sizes) /\ k = 1 /\ found = <<>>
Here == dev.at[P[k][3]]
Right(c, major) == (c = "v1" /\ major = 1) \/ (c = "v0" /\ major = 0)
Next ==
  /\ found = <<>>
  /\ IF dev.size < 12288 THEN found' = <<"small">> /\ k' = k
     ELSE IF k > Len(P) THEN found' = <<"missing">> /\ k' = k
     ELSE IF Right(Here, P[k][1]) THEN found' = P[k] /\ k' = k
     ELSE k' = k + 1 /\ found' = found
  /\ dev' = dev
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Valid(mj, mn, off) == Right(dev.at[off], mj)
AsSpecified == found # <<>> => found = Find(WOf(dev.size), Valid)
\* A failure only hides what is at the same place
Without(d) == [d EXCEPT !.at = [o \in DOMAIN @ |-> IF @[o] = "bad" THEN "none" ELSE @[o]]]
NothingHidden ==
  found # <<>> /\ dev.size >= 12288 =>
    LET V(mj, mn, off) == Right(Without(dev).at[off], mj) IN found = Find(WOf(dev.size), V)
Best ==
  found # <<>> /\ dev.size >= 12288 =>
    LET right == {j \in 1..Len(P) : Right(dev.at[P[j][3]], P[j][1])} IN
    IF right = {} THEN found = <<"missing">>
    ELSE /\ \E j \in right : found = P[j]
         /\ \A j \in right : P[j][1] < found[1] \/ (P[j][1] = found[1] /\ P[j][2] <= found[2])
Ends == <>(found # <<>>)

-----------------------------------------------------------------------------
(* Version 1 superblocks do not say their minor version *)
MinorAt(d, off) ==
  LET p == Places(WOf(d.size))
      js == {j \in 1..Len(p) : p[j][3] = off /\ p[j][1] = 1}
  IN IF js = {} THEN 2 ELSE p[Min(js)][2]
BlobsOf(d) ==
  SetToSeq({[off |-> o, major |-> IF d.at[o] = "v0" THEN 0 ELSE 1,
             minor |-> IF d.at[o] = "v0" THEN 90 ELSE MinorAt(d, o),
             flaw |-> IF d.at[o] = "unknown" THEN "major" ELSE ""] :
            o \in {o \in DOMAIN d.at : d.at[o] \notin {"none"}}})
BadOf(d) ==
  SetToSeq({<<WAdd(o, WOf(4095)), WAdd(o, WOf(4096))>> : o \in {o \in DOMAIN d.at : d.at[o] = "bad"}})
Scenario(d) ==
  [size |-> WOf(d.size), blobs |-> IF d.at = <<>> THEN <<>> ELSE BlobsOf(d), bad |-> IF d.at = <<>> THEN <<>> ELSE BadOf(d)]
ASSUME "VH_SCEN" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.VH_SCEN, SetToSeq({Scenario(d) : d \in Devices(ScenSizes)}))
=============================================================================
