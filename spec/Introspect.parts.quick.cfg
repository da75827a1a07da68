SPECIFICATION Spec
CONSTANTS Family = "parts"
  Deep = FALSE
INVARIANTS Closed Agree Unsaid Hidden
CHECK_DEADLOCK FALSE
