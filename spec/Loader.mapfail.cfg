SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  MaxLoads = 3
  MaxBatch = 3
  CacheKind = "map"
  Cap = 0
  MaxFeeds = 0
  MaxSwitch = 0
  MaxClear = 0
  MaxGone = 0
  Outcomes = {"all", "err"}
  LoadSets <- UpTo2
VIEW view
INVARIANTS ExactlyOnce BatchIsUnion OnlyOwnKeys WindowBelowMax Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
