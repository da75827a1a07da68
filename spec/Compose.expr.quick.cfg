SPECIFICATION Spec
CONSTANTS Family = "expr" Wide = FALSE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
