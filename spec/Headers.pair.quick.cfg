SPECIFICATION Spec
CONSTANTS Family = "pair" Few = TRUE
INVARIANTS OnlyListed Alone Restrictive
CHECK_DEADLOCK FALSE
