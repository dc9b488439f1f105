SPECIFICATION Spec
INVARIANTS CleanIsWhole FailuresAreTold NoFalseAlarm
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS MaxBlocks = 4 MaxFaults = 3 Sticky = TRUE
