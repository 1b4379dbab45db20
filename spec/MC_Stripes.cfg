SPECIFICATION Spec
INVARIANTS RecoveredExactly NeverWrong
CHECK_DEADLOCK FALSE
CONSTANTS
 TableN = 8
 MaxN = 6
 Chunks = {1, 2}
