SPECIFICATION FairSpec
CONSTANTS
  Req = {"a", "b", "c"}
  Key = {"k"}
  KeyOf <- MCKeyOf
  Outcomes = {"ok", "err", "panic"}
  Persist = FALSE
INVARIANTS SingleFlight OwnKey RealResult NoLostWaiter Remembered
PROPERTY AllAnswered
CHECK_DEADLOCK FALSE
