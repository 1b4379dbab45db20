SPECIFICATION Spec
INVARIANTS Inside NeverDiffers Complete1
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
 Most = 3
 Sizes = {1024, 1500, 2048}
 Order = "second"
