SPECIFICATION Spec
CONSTANTS Family = "expr" Wide = TRUE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
