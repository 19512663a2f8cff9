SPECIFICATION Spec
CONSTANTS N = 3  Vals = {1, 2}  Emit = TRUE
VIEW View
INVARIANTS Faithful Counted OneOwner
PROPERTIES Unchanged KeyStays Apart
ACTION_CONSTRAINT Note
CHECK_DEADLOCK FALSE
