SPECIFICATION Spec
CONSTANT Leaves = 3
INVARIANTS IsBoolean NeverWithout
CHECK_DEADLOCK FALSE
