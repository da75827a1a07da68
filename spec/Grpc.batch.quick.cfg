SPECIFICATION Spec
CONSTANTS
 Family = "batch"
 Deep = FALSE
INVARIANTS OwnItem
CHECK_DEADLOCK FALSE
