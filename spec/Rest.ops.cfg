SPECIFICATION Spec
CONSTANTS
 Family = "ops"
 Sizes = {1}
INVARIANTS Sound First
CHECK_DEADLOCK FALSE
