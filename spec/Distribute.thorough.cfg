SPECIFICATION Spec
CONSTANT Thorough = TRUE
INVARIANT Disjoint
CHECK_DEADLOCK FALSE
