SPECIFICATION Spec
CONSTANTS Family = "enum" Wide = TRUE
INVARIANTS Undisturbed Literal Declared Grouped
CHECK_DEADLOCK FALSE
