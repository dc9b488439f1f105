SPECIFICATION Spec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
CONSTANT NONE = 999999999
