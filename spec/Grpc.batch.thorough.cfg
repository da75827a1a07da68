SPECIFICATION Spec
CONSTANTS
 Family = "batch"
 Deep = TRUE
INVARIANTS OwnItem
CHECK_DEADLOCK FALSE
