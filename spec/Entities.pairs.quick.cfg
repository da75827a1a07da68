SPECIFICATION Spec
CONSTANTS
 Family = "pairs"
 Deep = FALSE
INVARIANTS EachAlone Typed
CHECK_DEADLOCK FALSE
