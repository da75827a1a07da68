SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}  Cap = 2  Ttls = {99, 201}  Vals = {"x", "y"}  MaxSets = 3 MaxGets = 2 MaxTicks = 3
VIEW view
INVARIANTS Bounded OnePerKey HitsAreLookups
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
