----------------------------- MODULE RaidLayout -----------------------------
(* Where Linux md puts the sectors of a RAID-5 or RAID-6 array.                *)
(*                                                                             *)
(* Two independent descriptions, which MC_RaidLayout shows to be the same:     *)
(*  - Geometric: which devices of a stripe hold P and Q, and the order in      *)
(*    which the remaining devices are filled with data chunks, stated by       *)
(*    counting ("restart" fills from device 0, "continuation" fills from the   *)
(*    device after the parity, wrapping);                                      *)
(*  - Kernel: the arithmetic of raid5_compute_sector in Linux's raid5.c.       *)
(* KernelW is the same arithmetic over Wide numbers, for device counts and     *)
(* sector numbers of any size.                                                 *)
EXTENDS Wide, FiniteSets

Layouts5 == {0, 1, 2, 3, 4, 5}
Layouts6 == {0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20}
Supported(level, layout) ==
  \/ level = 5 /\ layout \in Layouts5
  \/ level = 6 /\ layout \in Layouts6

ParityDevices(level) == IF level = 5 THEN 1 ELSE 2

-----------------------------------------------------------------------------
(* Geometric description *)

RotLeft(n, s) == (n - 1) - (s % n)      \* last device first, moving towards 0
RotRight(n, s) == s % n                 \* device 0 first, moving up

PDev(level, layout, n, s) ==
  IF level = 5 THEN
    CASE layout \in {0, 2} -> RotLeft(n, s)
      [] layout \in {1, 3} -> RotRight(n, s)
      [] layout = 4 -> 0
      [] layout = 5 -> n - 1
  ELSE
    CASE layout \in {0, 2, 10} -> RotLeft(n, s)
      [] layout \in {1, 3, 8} -> RotRight(n, s)
      [] layout = 9 -> RotLeft(n, s + 1)
      [] layout = 4 -> 0
      [] layout = 5 -> n - 2
      [] layout \in {16, 18} -> RotLeft(n - 1, s)   \* RAID-5 on all but the last
      [] layout \in {17, 19} -> RotRight(n - 1, s)
      [] layout = 20 -> 0

QDev(layout, n, p) ==
  CASE layout \in {0, 1, 2, 3, 8, 9} -> (p + 1) % n
    [] layout = 10 -> (p + n - 1) % n
    [] layout = 4 -> 1
    [] layout \in {5, 16, 17, 18, 19, 20} -> n - 1

Parities(level, layout, n, s) ==
  LET p == PDev(level, layout, n, s)
  IN IF level = 5 THEN {p} ELSE {p, QDev(layout, n, p)}

\* The device from which data chunks are laid out, in order, skipping parity.
FillFrom(level, layout, n, s) ==
  LET p == PDev(level, layout, n, s) IN
  IF level = 5
  THEN IF layout \in {2, 3} THEN (p + 1) % n ELSE 0
  ELSE CASE layout \in {2, 3} -> (p + 2) % n
         [] layout = 10 -> (p + 1) % n
         [] layout \in {18, 19} -> (p + 1) % (n - 1)
         [] OTHER -> 0

\* The d-th (from 0) non-parity device counted cyclically from FillFrom.
DataDev(level, layout, n, s, d) ==
  LET from == FillFrom(level, layout, n, s)
      free == (0..(n - 1)) \ Parities(level, layout, n, s)
      rank(x) == (x - from + n) % n
  IN CHOOSE x \in free : Cardinality({y \in free : rank(y) < rank(x)}) = d

Geometric(level, layout, n, s, d) ==
  LET p == PDev(level, layout, n, s) IN
  IF level = 5 THEN <<p, DataDev(level, layout, n, s, d)>>
  ELSE <<p, QDev(layout, n, p), DataDev(level, layout, n, s, d)>>

-----------------------------------------------------------------------------
(* The kernel's arithmetic: raid5_compute_sector *)

Kernel5(layout, n, s, dd) ==
  LET data == n - 1 IN
  CASE layout = 0 -> LET pd == data - (s % n)
                     IN <<pd, IF dd >= pd THEN dd + 1 ELSE dd>>
    [] layout = 1 -> LET pd == s % n
                     IN <<pd, IF dd >= pd THEN dd + 1 ELSE dd>>
    [] layout = 2 -> LET pd == data - (s % n) IN <<pd, (pd + 1 + dd) % n>>
    [] layout = 3 -> LET pd == s % n IN <<pd, (pd + 1 + dd) % n>>
    [] layout = 4 -> <<0, dd + 1>>
    [] layout = 5 -> <<data, dd>>

\* the LEFT/RIGHT_ASYMMETRIC adjustment of RAID-6
Asym6(n, pd, dd) ==
  IF pd = n - 1 THEN <<pd, 0, dd + 1>>
  ELSE <<pd, pd + 1, IF dd >= pd THEN dd + 2 ELSE dd>>

Kernel6(layout, n, s, dd) ==
  LET data == n - 2 IN
  CASE layout = 0 -> Asym6(n, (n - 1) - (s % n), dd)
    [] layout = 1 -> Asym6(n, s % n, dd)
    [] layout = 2 -> LET pd == (n - 1) - (s % n) IN <<pd, (pd + 1) % n, (pd + 2 + dd) % n>>
    [] layout = 3 -> LET pd == s % n IN <<pd, (pd + 1) % n, (pd + 2 + dd) % n>>
    [] layout = 4 -> <<0, 1, dd + 2>>
    [] layout = 5 -> <<data, data + 1, dd>>
    [] layout = 8 -> Asym6(n, s % n, dd)
    [] layout = 9 -> Asym6(n, (n - 1) - ((s + 1) % n), dd)
    [] layout = 10 -> LET pd == (n - 1) - (s % n) IN <<pd, (pd + n - 1) % n, (pd + 1 + dd) % n>>
    [] layout = 16 -> LET pd == data - (s % (n - 1))
                      IN <<pd, n - 1, IF dd >= pd THEN dd + 1 ELSE dd>>
    [] layout = 17 -> LET pd == s % (n - 1)
                      IN <<pd, n - 1, IF dd >= pd THEN dd + 1 ELSE dd>>
    [] layout = 18 -> LET pd == data - (s % (n - 1)) IN <<pd, n - 1, (pd + 1 + dd) % (n - 1)>>
    [] layout = 19 -> LET pd == s % (n - 1) IN <<pd, n - 1, (pd + 1 + dd) % (n - 1)>>
    [] layout = 20 -> <<0, n - 1, dd + 1>>

Kernel(level, layout, n, s, dd) ==
  IF level = 5 THEN Kernel5(layout, n, s, dd) ELSE Kernel6(layout, n, s, dd)

-----------------------------------------------------------------------------
(* The same over Wide numbers *)

W1 == <<1>>
W2 == <<2>>

AsymW(n, pd, dd) ==
  LET last == WSub(n, W1) IN
  IF pd = last THEN <<pd, WZero, WAdd(dd, W1)>>
  ELSE <<pd, WAdd(pd, W1), IF WLe(pd, dd) THEN WAdd(dd, W2) ELSE dd>>

KernelW(level, layout, n, s, dd) ==
  LET n1 == WSub(n, W1)
      data == IF level = 5 THEN n1 ELSE WSub(n, W2)
      left == WSub(n1, WRem(s, n))
      right == WRem(s, n)
      left1 == WSub(WSub(n1, W1), WRem(s, n1))
      right1 == WRem(s, n1)
      plus1(pd) == IF WLe(pd, dd) THEN WAdd(dd, W1) ELSE dd
  IN IF level = 5 THEN
       CASE layout = 0 -> <<left, plus1(left)>>
         [] layout = 1 -> <<right, plus1(right)>>
         [] layout = 2 -> <<left, WRem(WAdd(WAdd(left, W1), dd), n)>>
         [] layout = 3 -> <<right, WRem(WAdd(WAdd(right, W1), dd), n)>>
         [] layout = 4 -> <<WZero, WAdd(dd, W1)>>
         [] layout = 5 -> <<n1, dd>>
     ELSE
       CASE layout = 0 -> AsymW(n, left, dd)
         [] layout \in {1, 8} -> AsymW(n, right, dd)
         [] layout = 2 -> <<left, WRem(WAdd(left, W1), n), WRem(WAdd(WAdd(left, W2), dd), n)>>
         [] layout = 3 -> <<right, WRem(WAdd(right, W1), n), WRem(WAdd(WAdd(right, W2), dd), n)>>
         [] layout = 4 -> <<WZero, W1, WAdd(dd, W2)>>
         [] layout = 5 -> <<data, n1, dd>>
         [] layout = 9 -> AsymW(n, WSub(n1, WRem(WAdd(s, W1), n)), dd)
         [] layout = 10 -> <<left, WRem(WAdd(left, n1), n), WRem(WAdd(WAdd(left, W1), dd), n)>>
         [] layout = 16 -> <<left1, n1, plus1(left1)>>
         [] layout = 17 -> <<right1, n1, plus1(right1)>>
         [] layout = 18 -> <<left1, n1, WRem(WAdd(WAdd(left1, W1), dd), n1)>>
         [] layout = 19 -> <<right1, n1, WRem(WAdd(WAdd(right1, W1), dd), n1)>>
         [] layout = 20 -> <<WZero, n1, WAdd(dd, W1)>>

-----------------------------------------------------------------------------
(* Array sectors.  Locate gives <<sector within each member's data area,       *)
(* parity device(s)..., data device>>, or <<>> when the array cannot exist.    *)

Locate(level, layout, n, chunk, sector) ==
  LET data == n - ParityDevices(level) IN
  IF chunk <= 0 \/ data <= 0 THEN <<>>
  ELSE LET c == sector \div chunk
           o == sector % chunk
           dd == c % data
           s == c \div data
       IN <<s * chunk + o>> \o Geometric(level, layout, n, s, dd)

LocateW(level, layout, n, chunk, sector) ==
  LET par == WOf(ParityDevices(level)) IN
  IF chunk = WZero \/ WLe(n, par) THEN <<>>
  ELSE LET data == WSub(n, par)
           co == WDiv(sector, chunk)
           sd == WDiv(co[1], data)
       IN <<WAdd(WMul(sd[1], chunk), co[2])>> \o KernelW(level, layout, n, sd[1], sd[2])

\* The array's capacity in sectors
CapacityW(level, n, sectors_per_device) ==
  WMul(sectors_per_device, WSub(n, WOf(ParityDevices(level))))
=============================================================================
