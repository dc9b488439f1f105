SPECIFICATION Spec
CONSTANTS STREAMS = {0, 1, 2}
POSTCONDITION Post
CHECK_DEADLOCK FALSE
