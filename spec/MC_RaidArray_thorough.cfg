INIT Init
NEXT Next
INVARIANTS WritesKeepParity ReadsAreRight CorruptionIsSeen
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 5
 Stripes = 2
 Offs <- ScenOffs
