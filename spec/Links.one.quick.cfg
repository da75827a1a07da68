SPECIFICATION Spec
CONSTANTS
 Family = "one"
 Most = 2
INVARIANT SameSchema
CHECK_DEADLOCK FALSE
