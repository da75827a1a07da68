SPECIFICATION Spec
CONSTANTS Family = "merge" Wide = FALSE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
