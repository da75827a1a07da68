SPECIFICATION Spec
CONSTANT Thorough = FALSE
INVARIANTS NothingLost NothingAdded
CHECK_DEADLOCK FALSE
