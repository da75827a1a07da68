SPECIFICATION Spec
CONSTANTS Family = "refs"
  Deep = FALSE
INVARIANTS Closed Agree Unsaid Hidden
CHECK_DEADLOCK FALSE
