CONSTANT Most = 2
SPECIFICATION Spec
INVARIANTS ReadsAsWritten Opens DescsAsWritten
CHECK_DEADLOCK FALSE
