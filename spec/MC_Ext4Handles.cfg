INIT Init
NEXT Next
INVARIANTS AsIfAlone Follows Certain Discerning NoEarlyEnd
CHECK_DEADLOCK FALSE
CONSTANTS
 Used = {1, 2, 3, 4}
 Atomic = TRUE
 Faults = FALSE
 MaxFaults = 0
 ScenLen = 4
