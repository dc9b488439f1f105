SPECIFICATION Spec
CONSTANTS SLOTS = {0, 1}  VALS = {1, 2, 3}  MAXLEN = 14  DEPTH = 60  UDMAX = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
