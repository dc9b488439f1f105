SPECIFICATION TSpec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
CONSTANTS W = 10000
