SPECIFICATION Spec
CONSTANTS
 Family = "names"
 Thorough = TRUE
INVARIANTS Whole Once
CHECK_DEADLOCK FALSE
