SPECIFICATION Spec
CONSTANT Family = "quick"
INVARIANT Honoured
INVARIANT Commutes
CHECK_DEADLOCK FALSE
