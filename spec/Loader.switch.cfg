SPECIFICATION Spec
CONSTANTS
  Keys = {1}
  MaxLoads = 3
  MaxBatch = 3
  CacheKind = "map"
  Cap = 0
  MaxFeeds = 1
  MaxSwitch = 2
  MaxClear = 1
  MaxGone = 0
  Outcomes = {"all", "part", "err"}
  LoadSets <- Singles
VIEW view
INVARIANTS ExactlyOnce BatchIsUnion OnlyOwnKeys WindowBelowMax Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
