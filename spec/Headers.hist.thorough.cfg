SPECIFICATION Spec
CONSTANTS Family = "hist" Few = FALSE
INVARIANTS OnlyListed Alone Restrictive
CHECK_DEADLOCK FALSE
