SPECIFICATION Spec
CONSTANTS Family = "mod" Wide = FALSE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
