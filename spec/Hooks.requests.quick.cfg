SPECIFICATION Spec
CONSTANTS
 Family = "requests"
 Values = {"1", "a b", "a&b=c", "%41", ""}
 Paths = {"/p", "/a%20b", "/p/"}
INVARIANT Transparent Once Unchanged
CHECK_DEADLOCK FALSE
