SPECIFICATION Spec
CONSTANTS STREAMS = {0, 1}  VALS = {1, 2}  MAXLEN = 4  DEPTH = 1000000  UDMAX = 1
VIEW View
CONSTRAINT Bound
INVARIANTS TypeOK
PROPERTIES NeverShrinks FailureKeeps CursorsAlone
CHECK_DEADLOCK FALSE
