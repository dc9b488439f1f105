SPECIFICATION Spec
CONSTANTS W = 100
 KEYS = {1, 2}
 MAXN = 7
 RUN = 2
 FAN = 2
 FINALFAN = 2
INVARIANTS FanIn RunsSorted
PROPERTY Refines
CHECK_DEADLOCK FALSE
