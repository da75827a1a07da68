SPECIFICATION Spec
CONSTANTS Family = "reply" Few = FALSE
INVARIANTS OnlyListed Alone Restrictive
CHECK_DEADLOCK FALSE
