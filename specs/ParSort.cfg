SPECIFICATION Spec
CONSTANTS
 N = 4
 V = {1,2,3}
 MIN = 2
INVARIANTS Same Result Disjoint
PROPERTY Ends
