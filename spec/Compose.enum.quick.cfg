SPECIFICATION Spec
CONSTANTS Family = "enum" Wide = FALSE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
