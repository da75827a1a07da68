SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4}  Vals = {"x", "y"}  Cap = 3
VIEW view
INVARIANTS Bounded OnePerKey
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
