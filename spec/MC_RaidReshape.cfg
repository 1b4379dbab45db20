INIT Init
NEXT Next
INVARIANT ReadsAreRight
CHECK_DEADLOCK FALSE
CONSTANTS
 Pairs <- Some
 Chunks = {1, 2}
 Rows = 6
 Grow = TRUE
