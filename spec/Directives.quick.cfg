SPECIFICATION Spec
CONSTANT Wide = 2
INVARIANT RoundTrip
INVARIANT Kept
INVARIANT Order
CHECK_DEADLOCK FALSE
