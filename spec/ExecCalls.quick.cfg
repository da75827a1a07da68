SPECIFICATION Spec
CONSTANT Len1 = 2
CONSTANT Len2 = 3
INVARIANT Deduplicated
INVARIANT Kept
INVARIANT Expired
INVARIANT Effects
INVARIANT Never
INVARIANT OneBatch
CHECK_DEADLOCK FALSE
