SPECIFICATION Spec
CONSTANTS
 Family = "sets"
 Sizes = {1, 2, 3}
INVARIANTS Sound First
CHECK_DEADLOCK FALSE
