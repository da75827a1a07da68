SPECIFICATION Spec
CONSTANTS Family = "parts"
  Deep = TRUE
INVARIANTS Closed Agree Unsaid Hidden
CHECK_DEADLOCK FALSE
