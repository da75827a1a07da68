SPECIFICATION Spec
CONSTANT Third = {17,19,23,28,35,41,45,49,52}
INVARIANT RoundTrip
INVARIANT Runtimes
CHECK_DEADLOCK FALSE
