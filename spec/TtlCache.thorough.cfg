SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}  Cap = 2  Ttls = {99, 201}  Vals = {"x"}  MaxSets = 4 MaxGets = 3 MaxTicks = 3
VIEW view
INVARIANTS Bounded OnePerKey HitsAreLookups
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
