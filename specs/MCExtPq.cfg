SPECIFICATION Spec
CONSTANTS W = 10 KEYS = {0, 1, 2} IDS = {1, 2}
VIEW View
INVARIANTS AlwaysAns
PROPERTIES MinLeaves
CHECK_DEADLOCK FALSE
