SPECIFICATION Spec
CONSTANTS
 Family = "status"
 Deep = TRUE
INVARIANTS BytesOnly
CHECK_DEADLOCK FALSE
