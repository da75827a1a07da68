SPECIFICATION Spec
CONSTANT Family = "memory"
CONSTANT Depth = 4
CONSTANT Dedupes = {TRUE}
INVARIANT Memoryless
INVARIANT Guard
INVARIANT Fresh
INVARIANT One
CHECK_DEADLOCK FALSE
