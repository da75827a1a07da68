SPECIFICATION Spec
CONSTANTS Family = "defaults"
  Deep = TRUE
INVARIANTS Closed Agree Unsaid Hidden
CHECK_DEADLOCK FALSE
