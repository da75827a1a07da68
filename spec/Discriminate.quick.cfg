SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
INVARIANTS Total Stable
CHECK_DEADLOCK FALSE
