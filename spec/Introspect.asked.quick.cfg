SPECIFICATION Spec
CONSTANTS Family = "asked"
  Deep = FALSE
INVARIANTS Closed Agree Unsaid Hidden
CHECK_DEADLOCK FALSE
