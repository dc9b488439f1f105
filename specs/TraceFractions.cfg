SPECIFICATION TSpec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
