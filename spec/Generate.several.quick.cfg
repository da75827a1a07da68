SPECIFICATION Spec
CONSTANTS
 Family = "several"
 Thorough = FALSE
INVARIANTS Whole Once
CHECK_DEADLOCK FALSE
