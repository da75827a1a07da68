SPECIFICATION Spec
CONSTANTS Family = "inputs"
  Thorough = FALSE
INVARIANTS LawLeft LawAsked LawRename
CHECK_DEADLOCK FALSE
