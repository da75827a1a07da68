SPECIFICATION Spec
CONSTANT Wide = 3
INVARIANT RoundTrip
INVARIANT Kept
INVARIANT Order
CHECK_DEADLOCK FALSE
