SPECIFICATION Spec
CONSTANTS Family = "call" Wide = TRUE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
