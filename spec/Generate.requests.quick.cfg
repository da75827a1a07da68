SPECIFICATION Spec
CONSTANTS
 Family = "requests"
 Thorough = FALSE
INVARIANTS Whole Once
CHECK_DEADLOCK FALSE
