SPECIFICATION Spec
CONSTANTS K = 3  Vals = {1, 2}  Emit = TRUE
INVARIANTS Equal Anti Total Trans Begin
ACTION_CONSTRAINT Note
CHECK_DEADLOCK FALSE
