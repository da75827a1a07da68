SPECIFICATION Spec
CONSTANT Family = "memory"
CONSTANT Depth = 3
CONSTANT Dedupes = {FALSE,TRUE}
INVARIANT Memoryless
INVARIANT Guard
INVARIANT Fresh
INVARIANT One
CHECK_DEADLOCK FALSE
