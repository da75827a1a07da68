SPECIFICATION Spec
CONSTANTS
 Family = "two"
 Most = 2
INVARIANT SameSchema
CHECK_DEADLOCK FALSE
