SPECIFICATION Spec
CONSTANTS
 Family = "say"
 Deep = TRUE
INVARIANTS BytesOnly
CHECK_DEADLOCK FALSE
