SPECIFICATION Spec
CONSTANTS
 Family = "pairs"
 Deep = TRUE
INVARIANTS EachAlone Typed
CHECK_DEADLOCK FALSE
