SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  MaxLoads = 3
  MaxBatch = 3
  CacheKind = "none"
  Cap = 0
  MaxFeeds = 0
  MaxSwitch = 0
  MaxClear = 0
  MaxGone = 1
  Outcomes = {"part", "err"}
  LoadSets <- Mixed
VIEW view
INVARIANTS ExactlyOnce BatchIsUnion OnlyOwnKeys WindowBelowMax Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
