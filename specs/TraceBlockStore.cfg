SPECIFICATION Spec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
CONSTANTS NONE = 999999
 CELLS = 4
