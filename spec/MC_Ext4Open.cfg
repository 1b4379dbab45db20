INIT Init
NEXT Next
INVARIANTS NoSay Checksums Clauses OneGroup
CHECK_DEADLOCK FALSE
CONSTANT Fields <- SbNames
