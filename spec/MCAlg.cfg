SPECIFICATION Spec
CONSTANTS W = 5  Emit = TRUE
INVARIANTS Right Whole Enclosed Subset Disjoint
PROPERTIES Fused
ACTION_CONSTRAINT Note
CHECK_DEADLOCK FALSE
