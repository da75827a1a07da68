SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS GroupsPartition PathIsGather Kinds
CHECK_DEADLOCK FALSE
