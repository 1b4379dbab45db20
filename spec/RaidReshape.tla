---------------------------- MODULE RaidReshape ----------------------------
(* An array which is being reshaped has two geometries.  A reshape that goes   *)
(* forward has moved the sectors before its position; they are where the new   *)
(* geometry puts them, and the others where the old one does.  The recorded    *)
(* number of devices is the new one.                                           *)
EXTENDS RaidArray

InNew(x, position) == WLt(x, position)
\* delta: the recorded change, a two's complement 32-bit number
OldCount(count, delta) == WRem(WAdd(count, WSub(WPow2(32), delta)), WPow2(32))
Shrinks(delta) == WLe(WPow2(31), delta)
=============================================================================
