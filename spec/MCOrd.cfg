SPECIFICATION Spec
CONSTANTS NK = 3  Vals = {1, 2}  Emit = TRUE
VIEW View
INVARIANTS Faithful OneOwner
PROPERTIES Unchanged Local Told Moved Joined
ACTION_CONSTRAINT Note
CHECK_DEADLOCK FALSE
