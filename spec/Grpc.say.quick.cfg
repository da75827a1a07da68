SPECIFICATION Spec
CONSTANTS
 Family = "say"
 Deep = FALSE
INVARIANTS BytesOnly
CHECK_DEADLOCK FALSE
