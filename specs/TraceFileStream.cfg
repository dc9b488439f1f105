SPECIFICATION Spec
CONSTANTS SLOTS = {0, 1, 2}
POSTCONDITION Post
CHECK_DEADLOCK FALSE
