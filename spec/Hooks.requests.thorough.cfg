SPECIFICATION Spec
CONSTANTS
 Family = "requests"
 Values = {"1", "a b", "a&b=c", "%41", "", "+", "/?#", "q", "\"x\""}
 Paths = {"/p", "/a%20b", "/p/", "/", "/a%2Fb", "/a+b", "/a;b=c"}
INVARIANT Transparent Once Unchanged
CHECK_DEADLOCK FALSE
