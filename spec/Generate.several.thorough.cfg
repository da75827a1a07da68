SPECIFICATION Spec
CONSTANTS
 Family = "several"
 Thorough = TRUE
INVARIANTS Whole Once
CHECK_DEADLOCK FALSE
