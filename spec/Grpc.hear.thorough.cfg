SPECIFICATION Spec
CONSTANTS
 Family = "hear"
 Deep = TRUE
INVARIANTS FrameSize Robust
CHECK_DEADLOCK FALSE
