SPECIFICATION Spec
CONSTANTS W = 10000
POSTCONDITION Post
CHECK_DEADLOCK FALSE
