SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
INVARIANTS Assoc EmptyUnit
CHECK_DEADLOCK FALSE
