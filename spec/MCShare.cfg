SPECIFICATION Spec
CONSTANTS K = 3  R = 2  Emit = TRUE
INVARIANTS Still Whole Note
CHECK_DEADLOCK FALSE
