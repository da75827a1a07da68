SPECIFICATION Spec
CONSTANTS Family = "entries" Few = FALSE
INVARIANTS Segments Keys Repeats Bodied
CHECK_DEADLOCK FALSE
