SPECIFICATION Spec
CONSTANTS
  Kinds = {"http", "gql", "grpc"}
  Two = FALSE
INVARIANTS Own Fresh Share
CHECK_DEADLOCK FALSE
