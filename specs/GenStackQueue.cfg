SPECIFICATION Spec
CONSTANTS MAXLEN = 200 BATCH = {1, 2, 3, 8, 17, 40} DEPTH = 60
INVARIANTS Emit
CHECK_DEADLOCK FALSE
