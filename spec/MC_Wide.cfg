INIT Init
NEXT Next
INVARIANTS SmallOK BigOK
CHECK_DEADLOCK FALSE
