SPECIFICATION Spec
CONSTANTS Family = "abstract"
  Thorough = TRUE
INVARIANTS LawLeft LawAsked LawRename
CHECK_DEADLOCK FALSE
