CONSTANTS
 MaxLen = 2
 Alphabet = {0, 46, 65, 127, 128, 144, 160, 191, 192, 194, 224, 237, 240, 244, 245, 255}
 Longer = {65, 128, 143, 144, 159, 160, 191, 224, 237, 240, 244}
INIT Init
NEXT Next
INVARIANTS Order Texts
CHECK_DEADLOCK FALSE
