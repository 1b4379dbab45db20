INIT Init
NEXT Next
INVARIANTS Counted Contained Apart NoZero
CHECK_DEADLOCK FALSE
CONSTANTS
 Ipgs = {1, 3, 8}
 Groupss = {1, 3}
 Sizes = {128, 136, 160, 256}
 Extras = {0, 1, 3, 4, 5, 8, 12, 16, 19, 20, 24, 28, 31, 32, 33, 128, 65535}
