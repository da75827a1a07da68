SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
INVARIANTS Total Stable
CHECK_DEADLOCK FALSE
