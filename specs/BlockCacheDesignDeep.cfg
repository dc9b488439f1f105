SPECIFICATION Spec
CONSTANTS NONE = 99
 CELLS = 2
 CACHE = 2
 MAXB = 3
 VALS = {1, 2}
INVARIANT InBounds
PROPERTY Refines
CHECK_DEADLOCK FALSE
