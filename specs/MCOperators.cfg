SPECIFICATION Spec
CONSTANTS MAXLEN = 4
 VALS = {0, 1, 2}
INVARIANT Laws
CHECK_DEADLOCK FALSE
