SPECIFICATION Spec
CONSTANT Family = "thorough"
INVARIANT Honoured
INVARIANT Commutes
CHECK_DEADLOCK FALSE
