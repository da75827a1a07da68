SPECIFICATION Spec
CONSTANT Leaves = 4
INVARIANTS IsBoolean NeverWithout
CHECK_DEADLOCK FALSE
