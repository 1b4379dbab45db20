INIT Init
NEXT Next
INVARIANT ReadsAreRight
CHECK_DEADLOCK FALSE
CONSTANTS
 Pairs <- Every
 Chunks = {1, 2, 3}
 Rows = 6
 Grow = TRUE
