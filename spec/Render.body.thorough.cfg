SPECIFICATION Spec
CONSTANTS Family = "body" Few = FALSE
INVARIANTS Segments Keys Repeats Bodied
CHECK_DEADLOCK FALSE
