SPECIFICATION Spec
CONSTANTS
 Family = "made"
 Deep = FALSE
INVARIANTS Agree Finite Quiet
CHECK_DEADLOCK FALSE
