CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANTS ReadOnly Right Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
