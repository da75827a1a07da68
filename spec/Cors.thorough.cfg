SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANTS OwnOrigin NoOpenCredentials
CHECK_DEADLOCK FALSE
