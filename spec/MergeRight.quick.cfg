SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
INVARIANTS Assoc Unit Keeps
CHECK_DEADLOCK FALSE
