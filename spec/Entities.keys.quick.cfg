SPECIFICATION Spec
CONSTANTS
 Family = "keys"
 Deep = FALSE
INVARIANTS EachAlone Typed KeyWhole
CHECK_DEADLOCK FALSE
