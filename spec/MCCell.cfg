SPECIFICATION Spec
CONSTANTS K = 3  Emit = TRUE
VIEW View
INVARIANTS Sound Apart NotGone
PROPERTIES Local NoAlias Nothing
ACTION_CONSTRAINT Note
CHECK_DEADLOCK FALSE
