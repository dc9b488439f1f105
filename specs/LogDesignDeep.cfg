SPECIFICATION DSpec
CONSTANTS
 Levels = {3, 5}
 Direct = 11
 File = 8
 Err = 9
 FileThreshold = 5
 ErrThreshold = 3
 DebugLevel = 5
 Cap = 2
 Custom = {1}
 Max = 3
INVARIANTS Accepted Bounds InOrder
CHECK_DEADLOCK FALSE
