SPECIFICATION Spec
CONSTANTS Family = "call" Wide = FALSE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
