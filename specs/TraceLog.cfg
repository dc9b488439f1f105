SPECIFICATION TSpec
CONSTANTS
 Levels = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
 Direct = 11
 File = 8
 Err = 9
 FileThreshold = 5
 ErrThreshold = 3
 DebugLevel = 5
POSTCONDITION Post
CHECK_DEADLOCK FALSE
