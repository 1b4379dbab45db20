SPECIFICATION Spec
INVARIANTS AsSpecified NothingHidden Best
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
 Sizes = {0, 4096, 11776, 12288, 12800, 16384, 20480, 20992, 65024, 65536, 66048, 69632, 73728, 131072, 196608, 200192}
 ScenSizes = {0, 4096, 8192, 11776, 12288, 12800, 16384, 20480, 20992, 65024, 65536, 69632, 131072, 200192}
