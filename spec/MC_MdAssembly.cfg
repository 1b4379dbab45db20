INIT Init
NEXT Next
INVARIANTS FoldAgrees SeatsDistinct SeatsRecorded OnlyWholeSets
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxMembers = 2
 Codes = {0, 1, 65534, 65533}
 MaxLen = 2
 Indices = {0, 1, 2}
