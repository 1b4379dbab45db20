SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
CONSTANTS
 Most = 1
 Stride = 2
 Bits = {}
 ScenStride = 3
