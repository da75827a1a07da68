SPECIFICATION Spec
CONSTANTS
 Family = "lists"
 Deep = FALSE
INVARIANTS EachAlone Typed
CHECK_DEADLOCK FALSE
