SPECIFICATION Spec
CONSTANT Backs = "quick"
INVARIANT Assoc
INVARIANT Identity
INVARIANT LaterWins
INVARIANT Keeps
CHECK_DEADLOCK FALSE
