SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  MaxLoads = 4
  MaxBatch = 2
  CacheKind = "none"
  Cap = 0
  MaxFeeds = 0
  MaxSwitch = 0
  MaxClear = 0
  MaxGone = 1
  Outcomes = {"all", "err"}
  LoadSets <- Singles
VIEW view
INVARIANTS ExactlyOnce BatchIsUnion OnlyOwnKeys WindowBelowMax Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
