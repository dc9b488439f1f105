SPECIFICATION Spec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
CONSTANT W = 10000
