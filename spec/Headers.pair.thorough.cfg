SPECIFICATION Spec
CONSTANTS Family = "pair" Few = FALSE
INVARIANTS OnlyListed Alone Restrictive
CHECK_DEADLOCK FALSE
