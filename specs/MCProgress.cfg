SPECIFICATION MCSpec
CONSTANTS
 MaxNodes = 4
 Ranges = {0,2}
 Rs = {3}
INVARIANTS Bounded Finished Shown RootRange
PROPERTY Grows
CHECK_DEADLOCK FALSE
