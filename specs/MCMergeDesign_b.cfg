SPECIFICATION Spec
CONSTANTS W = 100
 KEYS = {1, 2}
 MAXN = 8
 RUN = 1
 FAN = 3
 FINALFAN = 2
INVARIANTS FanIn RunsSorted
PROPERTY Refines
CHECK_DEADLOCK FALSE
