SPECIFICATION Spec
CONSTANT Thorough = FALSE
INVARIANT Disjoint
CHECK_DEADLOCK FALSE
