SPECIFICATION Spec
CONSTANTS MEMS = {0, 5, 8, 12}
 FILES = {0, 5, 7}
 ITEMS = {0, 7, 20}
 SUMMED = TRUE
 DEFAULT = 9
INVARIANTS InMemory InFiles Progress Enough
PROPERTY Finishes
CHECK_DEADLOCK FALSE
