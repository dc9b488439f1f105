SPECIFICATION MCSpec
CONSTANTS
 Names = {1, 2}
 Fs = {0, 5}
 Ns = {1, 2}
INVARIANT Join
PROPERTIES Kept NoLoss
CHECK_DEADLOCK FALSE
