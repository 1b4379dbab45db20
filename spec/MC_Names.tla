------------------------------ MODULE MC_Names ------------------------------
(* Laws of names, for all names of up to MaxLen bytes of an alphabet of the    *)
(* bytes that matter to UTF-8: the order is total and agrees with equality,    *)
(* text is always valid, is its own text, and is the name's own bytes exactly  *)
(* if these are valid.  The names are scenarios for the code, all against all. *)
EXTENDS Names, Json, IOUtils, FiniteSets
CONSTANTS MaxLen, Alphabet, Longer

All == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
\* Longer ones: all characters of up to four bytes begin with one of these
Long == UNION {[1..n -> Longer] : n \in 3..4}
RECURSIVE Row(_)
Row(S) == IF S = {} THEN <<>> ELSE LET l == CHOOSE l \in S : TRUE IN <<l>> \o Row(S \ {l})
ASSUME "VH_SCEN" \in DOMAIN IOEnv =>
  ndJsonSerialize(IOEnv.VH_SCEN, << [names |-> Row(All), pairs |-> TRUE], [names |-> Row(Long), pairs |-> FALSE] >>)

VARIABLES a, b, c
Init == a \in All \cup Long /\ b = <<>> /\ c = <<>>
Next == UNCHANGED a /\ a \in All /\ b = <<>> /\ c = <<>> /\ b' \in All /\ c' \in All

Order ==
  /\ Cmp(a, b) = 0 - Cmp(b, a)
  /\ (Cmp(a, b) = 0) = (a = b)
  /\ Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0
  \* A start of a name comes before it
  /\ Cmp(b, b \o a) <= 0
  \* What comes first decides
  /\ Cmp(a, b) = -1 /\ Len(a) = Len(b) => Cmp(a \o c, b) = -1 /\ Cmp(a, b \o c) = -1
Texts ==
  LET t == Text(a) IN
  /\ Valid(t) /\ Text(t) = t
  /\ Valid(a) = (t = a)
  /\ Len(t) >= Len(a) \div 3
  /\ Terminated(a) = a \/ Len(Terminated(a)) < Len(a)
  /\ \A k \in 1..Len(Terminated(a)) : a[k] # 0
=============================================================================
