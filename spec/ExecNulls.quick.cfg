SPECIFICATION Spec
CONSTANT Depth3 = FALSE
INVARIANT Sound
INVARIANT Complaint
INVARIANT Failure
INVARIANT Sibling
CHECK_DEADLOCK FALSE
