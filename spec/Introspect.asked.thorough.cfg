SPECIFICATION Spec
CONSTANTS Family = "asked"
  Deep = TRUE
INVARIANTS Closed Agree Unsaid Hidden
CHECK_DEADLOCK FALSE
