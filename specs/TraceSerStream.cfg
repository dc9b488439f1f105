SPECIFICATION Spec
CONSTANTS FILES = {0, 1, 2} DIRS = {0, 1}
POSTCONDITION Post
CHECK_DEADLOCK FALSE
