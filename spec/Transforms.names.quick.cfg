SPECIFICATION Spec
CONSTANTS Family = "names"
  Thorough = FALSE
INVARIANTS LawLeft LawAsked LawRename
CHECK_DEADLOCK FALSE
