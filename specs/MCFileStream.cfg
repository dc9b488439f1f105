SPECIFICATION Spec
CONSTANTS SLOTS = {0}  VALS = {1, 2}  MAXLEN = 4  DEPTH = 1000000  UDMAX = 1
VIEW View
CONSTRAINT Bound
INVARIANTS TypeOK
PROPERTIES ReadOnlyKeeps FailureKeeps AppendOnly ReopenKeeps
CHECK_DEADLOCK FALSE
