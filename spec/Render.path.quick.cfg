SPECIFICATION Spec
CONSTANTS Family = "path" Few = TRUE
INVARIANTS Segments Keys Repeats Bodied
CHECK_DEADLOCK FALSE
