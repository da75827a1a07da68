SPECIFICATION Spec
CONSTANTS Family = "path" Few = FALSE
INVARIANTS Segments Keys Repeats Bodied
CHECK_DEADLOCK FALSE
