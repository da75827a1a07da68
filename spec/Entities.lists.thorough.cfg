SPECIFICATION Spec
CONSTANTS
 Family = "lists"
 Deep = TRUE
INVARIANTS EachAlone Typed
CHECK_DEADLOCK FALSE
