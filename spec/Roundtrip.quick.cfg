SPECIFICATION Spec
CONSTANT Wide = 2
INVARIANT RoundTrip
INVARIANT Stable
CHECK_DEADLOCK FALSE
