CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANTS ReadOnly Right Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
