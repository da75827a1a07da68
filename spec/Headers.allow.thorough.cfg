SPECIFICATION Spec
CONSTANTS Family = "allow" Few = FALSE
INVARIANTS OnlyListed Alone Restrictive
CHECK_DEADLOCK FALSE
