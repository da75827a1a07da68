SPECIFICATION Spec
CONSTANT Third = {}
INVARIANT RoundTrip
INVARIANT Runtimes
CHECK_DEADLOCK FALSE
