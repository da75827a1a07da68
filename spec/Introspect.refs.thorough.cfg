SPECIFICATION Spec
CONSTANTS Family = "refs"
  Deep = TRUE
INVARIANTS Closed Agree Unsaid Hidden
CHECK_DEADLOCK FALSE
