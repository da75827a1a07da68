SPECIFICATION Spec
CONSTANTS
  Kinds = {"http", "gql", "grpc"}
  Two = TRUE
INVARIANTS Own Fresh Share
CHECK_DEADLOCK FALSE
