SPECIFICATION Spec
CONSTANTS FILES = {0, 1} DIRS = {0, 1} MAXOBJ = 2 SIZES = {0, 1} DEPTH = 100000
VIEW View
INVARIANTS TypeOK ReadsOnlyClean AllRead
CHECK_DEADLOCK FALSE
