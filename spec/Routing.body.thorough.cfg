SPECIFICATION Spec
CONSTANTS Family = "body" MaxBatch = 4 MaxText = 3 Few = FALSE
INVARIANTS OneAnswer QueryStays Positions
CHECK_DEADLOCK FALSE
