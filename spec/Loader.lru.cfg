SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  MaxLoads = 3
  MaxBatch = 1
  CacheKind = "lru"
  Cap = 2
  MaxFeeds = 1
  MaxSwitch = 0
  MaxClear = 1
  MaxGone = 0
  Outcomes = {"all"}
  LoadSets <- UpTo2
VIEW view
INVARIANTS ExactlyOnce BatchIsUnion OnlyOwnKeys WindowBelowMax Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
