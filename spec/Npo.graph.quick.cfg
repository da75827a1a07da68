SPECIFICATION Spec
CONSTANTS
 Family = "graph"
 Deep = FALSE
INVARIANTS Agree Finite Quiet
CHECK_DEADLOCK FALSE
