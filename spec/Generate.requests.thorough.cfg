SPECIFICATION Spec
CONSTANTS
 Family = "requests"
 Thorough = TRUE
INVARIANTS Whole Once
CHECK_DEADLOCK FALSE
