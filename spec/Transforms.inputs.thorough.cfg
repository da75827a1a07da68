SPECIFICATION Spec
CONSTANTS Family = "inputs"
  Thorough = TRUE
INVARIANTS LawLeft LawAsked LawRename
CHECK_DEADLOCK FALSE
