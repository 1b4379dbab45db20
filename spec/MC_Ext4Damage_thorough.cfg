SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
CONSTANTS
 Most = 2
 Stride = 61
 Bits = {0, 7}
 ScenStride = 1
