SPECIFICATION Spec
CONSTANTS Family = "query" Few = FALSE
INVARIANTS Segments Keys Repeats Bodied
CHECK_DEADLOCK FALSE
