SPECIFICATION Spec
CONSTANTS Family = "abstract"
  Thorough = FALSE
INVARIANTS LawLeft LawAsked LawRename
CHECK_DEADLOCK FALSE
