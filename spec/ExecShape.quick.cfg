SPECIFICATION Spec
CONSTANT Fams = {"pairs", "onecond", "args", "moreargs"}
INVARIANT RootShape
INVARIANT NoFailure
INVARIANT Alone
INVARIANT Idempotent
INVARIANT Transparent
CHECK_DEADLOCK FALSE
