SPECIFICATION Spec
CONSTANT Depth3 = TRUE
INVARIANT Sound
INVARIANT Complaint
INVARIANT Failure
INVARIANT Sibling
CHECK_DEADLOCK FALSE
