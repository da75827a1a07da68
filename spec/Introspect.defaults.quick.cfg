SPECIFICATION Spec
CONSTANTS Family = "defaults"
  Deep = FALSE
INVARIANTS Closed Agree Unsaid Hidden
CHECK_DEADLOCK FALSE
