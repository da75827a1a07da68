SPECIFICATION Spec
CONSTANTS Family = "merge" Wide = TRUE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
