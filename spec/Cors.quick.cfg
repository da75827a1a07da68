SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANTS OwnOrigin NoOpenCredentials
CHECK_DEADLOCK FALSE
