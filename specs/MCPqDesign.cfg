SPECIFICATION Spec
CONSTANTS M = 2 MM = 1 K = 2 KEYS = {0, 1} MAXSIZE = 13
INVARIANTS Content HeapOrder InUse Room
PROPERTIES MinLeaves
CHECK_DEADLOCK FALSE
