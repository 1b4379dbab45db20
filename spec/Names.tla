------------------------------- MODULE Names -------------------------------
(* Names in a filesystem: sequences of bytes.                                  *)
EXTENDS Integers, Sequences

\* Before the first zero byte
RECURSIVE UpTo(_, _)
UpTo(b, k) == IF k > Len(b) \/ b[k] = 0 THEN k - 1 ELSE UpTo(b, k + 1)
Terminated(b) == SubSeq(b, 1, UpTo(b, 1))

-----------------------------------------------------------------------------
(* Order: byte by byte; a name comes before any it is a proper start of.       *)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, k) ==
  IF k > Len(a) THEN IF k > Len(b) THEN 0 ELSE -1
  ELSE IF k > Len(b) THEN 1
  ELSE IF a[k] < b[k] THEN -1
  ELSE IF a[k] > b[k] THEN 1
  ELSE CmpAt(a, b, k + 1)
Cmp(a, b) == CmpAt(a, b, 1)

-----------------------------------------------------------------------------
(* Text: UTF-8, where every longest run of bytes that begins a character but   *)
(* does not complete one, and every other byte, reads as U+FFFD (Unicode 3.9). *)
Replacement == <<239, 191, 189>>
\* Bytes a first byte asks for, and what the second of them may be
Need(x) ==
  CASE x < 128 -> 1
    [] x \in 194..223 -> 2
    [] x \in 224..239 -> 3
    [] x \in 240..244 -> 4
    [] OTHER -> 0
Second(x) ==
  CASE x = 224 -> 160..191
    [] x = 237 -> 128..159
    [] x = 240 -> 144..191
    [] x = 244 -> 128..143
    [] OTHER -> 128..191
\* How many of the bytes from k on belong to the character that begins there
RECURSIVE Fits(_, _, _)
Fits(b, k, n) ==
  IF n = Need(b[k]) \/ k + n > Len(b) THEN n
  ELSE IF b[k + n] \in (IF n = 1 THEN Second(b[k]) ELSE 128..191) THEN Fits(b, k, n + 1)
  ELSE n
Whole(b, k) == Need(b[k]) > 0 /\ Fits(b, k, 1) = Need(b[k])
Step(b, k) == IF Need(b[k]) = 0 THEN 1 ELSE Fits(b, k, 1)
RECURSIVE TextFrom(_, _)
TextFrom(b, k) ==
  IF k > Len(b) THEN <<>>
  ELSE (IF Whole(b, k) THEN SubSeq(b, k, k + Step(b, k) - 1) ELSE Replacement) \o TextFrom(b, k + Step(b, k))
Text(b) == TextFrom(b, 1)
RECURSIVE ValidFrom(_, _)
ValidFrom(b, k) == k > Len(b) \/ (Whole(b, k) /\ ValidFrom(b, k + Step(b, k)))
Valid(b) == ValidFrom(b, 1)
=============================================================================
