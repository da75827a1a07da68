SPECIFICATION Spec
CONSTANTS Family = "merge"
  Thorough = FALSE
INVARIANTS LawLeft LawAsked LawRename
CHECK_DEADLOCK FALSE
