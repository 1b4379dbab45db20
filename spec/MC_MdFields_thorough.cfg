SPECIFICATION Spec
INVARIANT ReadsAsWritten
CHECK_DEADLOCK FALSE
CONSTANTS
 Most = 2
 Fills = {255}
