SPECIFICATION Spec
CONSTANTS
 Family = "status"
 Deep = FALSE
INVARIANTS BytesOnly
CHECK_DEADLOCK FALSE
