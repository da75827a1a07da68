SPECIFICATION Spec
CONSTANTS
  Req = {"a", "b", "x"}
  Key = {"k", "j"}
  KeyOf <- MCKeyOf
  Outcomes = {"ok", "err", "panic"}
  Persist = FALSE
VIEW view
INVARIANTS SingleFlight OwnKey RealResult NoLostWaiter Remembered
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
