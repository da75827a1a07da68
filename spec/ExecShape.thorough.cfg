SPECIFICATION Spec
CONSTANT Fams = {"pairs", "onecond", "args", "moreargs", "conds", "triples"}
INVARIANT RootShape
INVARIANT NoFailure
INVARIANT Alone
INVARIANT Idempotent
INVARIANT Transparent
CHECK_DEADLOCK FALSE
