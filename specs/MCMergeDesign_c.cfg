SPECIFICATION Spec
CONSTANTS W = 100
 KEYS = {1, 2}
 MAXN = 7
 RUN = 2
 FAN = 3
 FINALFAN = 3
INVARIANTS FanIn RunsSorted
PROPERTY Refines
CHECK_DEADLOCK FALSE
