SPECIFICATION Spec
CONSTANTS W = 100
 A = 2
 B = 4
 KEYS = {1}
 MAXN = 7
 MAXID = 8
 ORD = FALSE
INVARIANTS Shape Searching
PROPERTY Refines
CHECK_DEADLOCK FALSE
