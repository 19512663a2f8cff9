SPECIFICATION Spec
CONSTANTS B = 6  Top = 300  Depth = 5
INVARIANTS Refines Shaped Looked
ACTION_CONSTRAINT Note
CHECK_DEADLOCK FALSE
