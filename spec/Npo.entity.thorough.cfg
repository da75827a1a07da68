SPECIFICATION Spec
CONSTANTS
 Family = "entity"
 Deep = TRUE
INVARIANTS Agree Finite Quiet
CHECK_DEADLOCK FALSE
