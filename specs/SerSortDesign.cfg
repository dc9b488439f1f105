SPECIFICATION Spec
CONSTANTS W = 100
 KEYS = {1, 2}
 SIZES = {1, 2}
 MAXN = 6
 CAP = 2
 FAN = 3
 FINALFAN = 2
INVARIANTS Ready Files
PROPERTY Refines
CHECK_DEADLOCK FALSE
