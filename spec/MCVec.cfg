SPECIFICATION Spec
CONSTANTS MaxLen = 2  Vals = {1, 2}  Emit = TRUE
VIEW View
INVARIANTS TypeOK OneOwner
PROPERTIES KeptOnFailure NoneInvented PrefixOnPanic
ACTION_CONSTRAINT Note
CHECK_DEADLOCK FALSE
