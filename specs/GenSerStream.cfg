SPECIFICATION Spec
CONSTANTS FILES = {0, 1, 2} DIRS = {0, 1} MAXOBJ = 6 SIZES = {1, 2, 3, 4} DEPTH = 40
INVARIANTS Emit
CHECK_DEADLOCK FALSE
