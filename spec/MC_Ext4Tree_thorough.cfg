SPECIFICATION Spec
INVARIANTS Refines Bounded NeverMore RightPlace Complete1
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
 Families = {"single", "two", "three"}
 Sizes = {0, 1, 1024, 2500, 4096}
