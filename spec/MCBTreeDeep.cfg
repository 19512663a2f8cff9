SPECIFICATION Spec
CONSTANTS B = 3  N = 18  R = 15
INVARIANTS Refines Shaped Looked BlocksExact SpareUsed Proportion Shallow CheapSearch Walks Ranges
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
