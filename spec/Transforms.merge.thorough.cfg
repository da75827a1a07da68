SPECIFICATION Spec
CONSTANTS Family = "merge"
  Thorough = TRUE
INVARIANTS LawLeft LawAsked LawRename
CHECK_DEADLOCK FALSE
