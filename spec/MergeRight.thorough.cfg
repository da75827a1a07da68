SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
INVARIANTS Assoc Unit Keeps
CHECK_DEADLOCK FALSE
