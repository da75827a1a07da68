SPECIFICATION Spec
CONSTANTS
 Family = "one"
 Most = 3
INVARIANT SameSchema
CHECK_DEADLOCK FALSE
