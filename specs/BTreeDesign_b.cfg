SPECIFICATION Spec
CONSTANTS W = 100
 A = 2
 B = 3
 KEYS = {1}
 MAXN = 8
 MAXID = 9
 ORD = TRUE
INVARIANTS Shape Searching
PROPERTY Refines
CHECK_DEADLOCK FALSE
