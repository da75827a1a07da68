SPECIFICATION Spec
CONSTANTS Family = "allow" Few = TRUE
INVARIANTS OnlyListed Alone Restrictive
CHECK_DEADLOCK FALSE
