SPECIFICATION Spec
CONSTANT Backs = "thorough"
INVARIANT Assoc
INVARIANT Identity
INVARIANT LaterWins
INVARIANT Keeps
CHECK_DEADLOCK FALSE
