SPECIFICATION Spec
CONSTANTS Family = "head" Few = TRUE
INVARIANTS Segments Keys Repeats Bodied
CHECK_DEADLOCK FALSE
