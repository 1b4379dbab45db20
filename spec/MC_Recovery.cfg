SPECIFICATION Spec
INVARIANTS NeverWrong Exact Refused Local
CHECK_DEADLOCK FALSE
CONSTANTS
 Layouts = {2, 8}
 Members = 4
 Chunk = 1
 MostOdd = 1
