SPECIFICATION Spec
CONSTANTS Family = "entries" Few = TRUE
INVARIANTS Segments Keys Repeats Bodied
CHECK_DEADLOCK FALSE
