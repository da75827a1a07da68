SPECIFICATION Spec
CONSTANTS Family = "root" Wide = FALSE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
