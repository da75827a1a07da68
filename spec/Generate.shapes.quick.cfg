SPECIFICATION Spec
CONSTANTS
 Family = "shapes"
 Thorough = FALSE
INVARIANTS Whole Once
CHECK_DEADLOCK FALSE
