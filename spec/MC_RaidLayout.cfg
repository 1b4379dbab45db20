INIT Init
NEXT Next
INVARIANTS TypeOK Agree RowIsPartition MapIsInjective MapStaysOffParity Rotates LocateWideAgrees Refused
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxN = 7
 Chunks = {1,2,3}
