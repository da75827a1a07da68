SPECIFICATION Spec
CONSTANT Family = "auth"
CONSTANT Depth = 3
CONSTANT Dedupes = {TRUE}
INVARIANT Memoryless
INVARIANT Guard
INVARIANT Fresh
INVARIANT One
CHECK_DEADLOCK FALSE
