----------------------------- MODULE RaidArray -----------------------------
(* Reading a sector of an assembled array.                                     *)
(*                                                                             *)
(* What a member can give for a sector is a record [r, v]: r is "yes" (it can  *)
(* be read and is v), "no" (it cannot be read, or there is no such member) or  *)
(* "maybe" (it shares a larger block with an unreadable sector: reading it may *)
(* fail, and gives v otherwise).  A sector's contents are a sequence of bytes, *)
(* or of runs of equal bytes.                                                  *)
(*                                                                             *)
(* The outcome of a read is a set of permitted outcomes: <<>> is an error,     *)
(* <<v>> is success with contents v.                                           *)
EXTENDS RaidLayout, Bitwise

XorSeq(a, b) == [k \in 1..Len(a) |-> a[k] ^^ b[k]]

\* par: the parity members, the XOR parity first; dev: the member with the data
ReadStripe(n, par, dev, Get(_)) ==
  LET got == [d \in 0..(n - 1) |-> Get(d)]
      P == par[1]
      others == {d \in 0..(n - 1) : \A k \in 1..Len(par) : par[k] # d}
      ref == got[CHOOSE d \in others : TRUE].v
      XorTo[d \in 0..n] ==
        IF d = 0 THEN [k \in 1..Len(ref) |-> 0]
        ELSE IF (d - 1) \in others THEN XorSeq(XorTo[d - 1], got[d - 1].v) ELSE XorTo[d - 1]
  IN IF \E d \in 0..(n - 1) : got[d].r = "no" THEN {<<>>}
     ELSE IF \E k \in 1..Len(ref) : XorTo[n][k] # got[P].v[k] THEN {<<>>}
     ELSE (IF \E d \in 0..(n - 1) : got[d].r = "maybe" THEN {<<>>} ELSE {})
          \cup {<<got[dev].v>>}
=============================================================================
