SPECIFICATION Spec
CONSTANT Thorough = TRUE
INVARIANTS NothingLost NothingAdded
CHECK_DEADLOCK FALSE
