SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS GroupsPartition PathIsGather Kinds
CHECK_DEADLOCK FALSE
