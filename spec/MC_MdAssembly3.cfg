INIT Init
NEXT Next
INVARIANTS FoldAgrees SeatsDistinct SeatsRecorded OnlyWholeSets
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxMembers = 3
 Codes = {0, 1, 65535}
 MaxLen = 2
 Indices = {0, 1}
