SPECIFICATION Spec
CONSTANTS
 Family = "names"
 Thorough = FALSE
INVARIANTS Whole Once
CHECK_DEADLOCK FALSE
