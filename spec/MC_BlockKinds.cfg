INIT Init
NEXT Next
INVARIANTS Refines Permitted
CHECK_DEADLOCK FALSE
CONSTANTS
 Sizes = {0, 1, 5, 6}
 BlockSizes = {1, 2, 3}
 Lens = {0, 1, 7}
 Offsets <- OffsetsQ
 Limit = 9
 ScenLen = 2
