SPECIFICATION Spec
CONSTANTS M = 2 MM = 1 K = 2 KEYS = {0, 1, 2} MAXSIZE = 14
INVARIANTS Content HeapOrder InUse Room
PROPERTIES MinLeaves
CHECK_DEADLOCK FALSE
