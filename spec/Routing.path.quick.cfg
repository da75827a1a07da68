SPECIFICATION Spec
CONSTANTS Family = "path" MaxBatch = 3 MaxText = 2 Few = TRUE
INVARIANTS OneAnswer QueryStays Positions
CHECK_DEADLOCK FALSE
