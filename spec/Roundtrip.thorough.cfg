SPECIFICATION Spec
CONSTANT Wide = 3
INVARIANT RoundTrip
INVARIANT Stable
CHECK_DEADLOCK FALSE
