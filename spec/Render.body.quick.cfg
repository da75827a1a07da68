SPECIFICATION Spec
CONSTANTS Family = "body" Few = TRUE
INVARIANTS Segments Keys Repeats Bodied
CHECK_DEADLOCK FALSE
