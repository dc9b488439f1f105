SPECIFICATION MCSpec
CONSTANTS
 Slots <- SmallSlots
 MaxObj = 3
 MaxPath = 4
 MaxStep = 6
INVARIANTS Unique Held Swept Counted Once
PROPERTIES UserFiles
CHECK_DEADLOCK FALSE
