SPECIFICATION Spec
CONSTANTS
 Family = "two"
 Most = 3
INVARIANT SameSchema
CHECK_DEADLOCK FALSE
