SPECIFICATION Spec
CONSTANTS
 Family = "entity"
 Deep = FALSE
INVARIANTS Agree Finite Quiet
CHECK_DEADLOCK FALSE
