SPECIFICATION Spec
CONSTANTS Family = "hist" Few = TRUE
INVARIANTS OnlyListed Alone Restrictive
CHECK_DEADLOCK FALSE
