CONSTANTS
 MaxLen = 2
 Alphabet = {0, 65, 127, 128, 191, 194, 226, 240, 255}
 Longer = {65, 128, 160, 191, 224, 237, 240, 244}
INIT Init
NEXT Next
INVARIANTS Order Texts
CHECK_DEADLOCK FALSE
