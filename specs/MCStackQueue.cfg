SPECIFICATION Spec
CONSTANTS MAXLEN = 6 BATCH = {1, 2, 3} DEPTH = 100000
VIEW View
INVARIANTS TypeOK
PROPERTIES Discipline
CHECK_DEADLOCK FALSE
