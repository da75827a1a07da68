SPECIFICATION Spec
CONSTANT Len1 = 3
CONSTANT Len2 = 4
INVARIANT Deduplicated
INVARIANT Kept
INVARIANT Expired
INVARIANT Effects
INVARIANT Never
INVARIANT OneBatch
CHECK_DEADLOCK FALSE
