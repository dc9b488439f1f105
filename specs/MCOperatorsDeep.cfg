SPECIFICATION Spec
CONSTANTS MAXLEN = 5
 VALS = {0, 1, 2}
INVARIANT Laws
CHECK_DEADLOCK FALSE
