SPECIFICATION Spec
CONSTANTS Family = "reply" Few = TRUE
INVARIANTS OnlyListed Alone Restrictive
CHECK_DEADLOCK FALSE
