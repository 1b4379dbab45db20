SPECIFICATION Spec
INVARIANTS Refines Bounded NeverMore RightPlace Complete1
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
 Families = {"single", "two", "three"}
 Sizes = {2500}
