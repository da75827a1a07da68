SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
INVARIANTS Assoc EmptyUnit
CHECK_DEADLOCK FALSE
