SPECIFICATION Spec
CONSTANTS
 Family = "shapes"
 Thorough = TRUE
INVARIANTS Whole Once
CHECK_DEADLOCK FALSE
