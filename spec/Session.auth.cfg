SPECIFICATION Spec
CONSTANT Family = "auth"
CONSTANT Depth = 2
CONSTANT Dedupes = {FALSE,TRUE}
INVARIANT Memoryless
INVARIANT Guard
INVARIANT Fresh
INVARIANT One
CHECK_DEADLOCK FALSE
