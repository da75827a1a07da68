SPECIFICATION Spec
CONSTANTS Family = "root" Wide = TRUE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
