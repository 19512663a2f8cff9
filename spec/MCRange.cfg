SPECIFICATION Spec
CONSTANTS B = 6  Keys = 17  Emit = TRUE
INVARIANTS Exact Meet Formed1
ACTION_CONSTRAINT Note
CHECK_DEADLOCK FALSE
