SPECIFICATION Spec
CONSTANTS Family = "names"
  Thorough = TRUE
INVARIANTS LawLeft LawAsked LawRename
CHECK_DEADLOCK FALSE
