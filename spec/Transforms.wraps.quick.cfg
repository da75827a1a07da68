SPECIFICATION Spec
CONSTANTS Family = "wraps"
  Thorough = FALSE
INVARIANTS LawLeft LawAsked LawRename
CHECK_DEADLOCK FALSE
