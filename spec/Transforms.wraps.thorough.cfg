SPECIFICATION Spec
CONSTANTS Family = "wraps"
  Thorough = TRUE
INVARIANTS LawLeft LawAsked LawRename
CHECK_DEADLOCK FALSE
