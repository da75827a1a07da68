SPECIFICATION Spec
CONSTANTS Family = "head" Few = FALSE
INVARIANTS Segments Keys Repeats Bodied
CHECK_DEADLOCK FALSE
