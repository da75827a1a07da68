SPECIFICATION Spec
CONSTANTS
 Family = "calls"
 Deep = FALSE
INVARIANTS BytesOnly
CHECK_DEADLOCK FALSE
