SPECIFICATION Spec
CONSTANTS W = 100
 KEYS = {1, 2}
 MAXN = 9
 RUN = 1
 FAN = 4
 FINALFAN = 2
INVARIANTS FanIn RunsSorted
PROPERTY Refines
CHECK_DEADLOCK FALSE
