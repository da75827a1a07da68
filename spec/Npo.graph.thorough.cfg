SPECIFICATION Spec
CONSTANTS
 Family = "graph"
 Deep = TRUE
INVARIANTS Agree Finite Quiet
CHECK_DEADLOCK FALSE
