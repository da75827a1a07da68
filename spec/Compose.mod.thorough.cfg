SPECIFICATION Spec
CONSTANTS Family = "mod" Wide = TRUE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
