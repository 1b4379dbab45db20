INIT Init
NEXT Next
INVARIANTS Inside Aligned NearEnd Apart Preferred
CHECK_DEADLOCK FALSE
CONSTANT Sizes <- DeepSizes
