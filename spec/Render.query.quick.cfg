SPECIFICATION Spec
CONSTANTS Family = "query" Few = TRUE
INVARIANTS Segments Keys Repeats Bodied
CHECK_DEADLOCK FALSE
