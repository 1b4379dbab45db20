INIT Init
NEXT Next
INVARIANTS AsIfAlone Follows Certain Discerning NoEarlyEnd
CHECK_DEADLOCK FALSE
CONSTANTS
 Used = {1, 3, 4}
 Atomic = TRUE
 Faults = TRUE
 MaxFaults = 1
 ScenLen = 2
