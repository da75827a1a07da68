SPECIFICATION TSpec
CONSTANTS
  Req = {"k0", "k1", "k2", "k3", "k4", "k5", "j0", "j1", "j2", "j3", "j4", "j5"}
  Key = {"k", "j"}
  KeyOf <- TKeyOf
  Outcomes = {"ok", "err", "panic"}
  Persist = FALSE
VIEW tview
INVARIANTS SingleFlight OwnKey RealResult
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
