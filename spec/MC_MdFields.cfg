SPECIFICATION Spec
INVARIANT ReadsAsWritten
CHECK_DEADLOCK FALSE
CONSTANTS
 Most = 1
 Fills = {0, 255}
