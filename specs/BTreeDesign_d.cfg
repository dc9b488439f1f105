SPECIFICATION Spec
CONSTANTS W = 100
 A = 2
 B = 3
 KEYS = {1}
 MAXN = 10
 MAXID = 12
 ORD = FALSE
INVARIANTS Shape Searching
PROPERTY Refines
CHECK_DEADLOCK FALSE
