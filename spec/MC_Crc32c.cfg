INIT Init
NEXT Next
INVARIANTS Resumes Bitwise_ Linear Detects
CHECK_DEADLOCK FALSE
