SPECIFICATION Spec
CONSTANTS P = 4  L = 5  Emit = TRUE
INVARIANTS Bounded Untouched Agrees NeverStuck
ACTION_CONSTRAINT Note
CHECK_DEADLOCK FALSE
