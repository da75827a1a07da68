SPECIFICATION Spec
CONSTANTS
 Family = "hear"
 Deep = FALSE
INVARIANTS FrameSize Robust
CHECK_DEADLOCK FALSE
