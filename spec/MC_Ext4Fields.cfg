CONSTANT Most = 1
SPECIFICATION Spec
INVARIANTS ReadsAsWritten Opens DescsAsWritten
CHECK_DEADLOCK FALSE
