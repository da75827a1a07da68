SPECIFICATION Spec
CONSTANTS
 Family = "calls"
 Deep = TRUE
INVARIANTS BytesOnly
CHECK_DEADLOCK FALSE
