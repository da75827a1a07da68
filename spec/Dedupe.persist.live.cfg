SPECIFICATION FairSpec
CONSTANTS
  Req = {"a", "b", "c"}
  Key = {"k"}
  KeyOf <- MCKeyOf
  Outcomes = {"ok", "err", "panic"}
  Persist = TRUE
INVARIANTS SingleFlight OwnKey RealResult NoLostWaiter Remembered
PROPERTY AllAnswered
CHECK_DEADLOCK FALSE
