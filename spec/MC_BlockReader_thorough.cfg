INIT Init
NEXT Next
INVARIANTS Refines Permitted
CHECK_DEADLOCK FALSE
CONSTANTS
 Sizes = {0, 1, 4, 5, 6, 7}
 BlockSizes = {1, 2, 3}
 Lens = {0, 1, 2, 7}
 Offsets <- OffsetsT
 Limit = 12
 ScenLen = 3
