INIT Init
NEXT Next
INVARIANTS Counted Contained Apart NoZero
CHECK_DEADLOCK FALSE
CONSTANTS
 Ipgs = {1, 2, 3, 7, 8, 16}
 Groupss = {1, 2, 5}
 Sizes = {128, 130, 136, 160, 256, 512}
 Extras = {0, 1, 3, 4, 5, 8, 12, 16, 19, 20, 24, 28, 31, 32, 33, 128, 65535}
