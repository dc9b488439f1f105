SPECIFICATION Spec
CONSTANTS USERS = {1, 2, 3}
 DS = {}
 PHASES = {1}
 LOS = {0, 2, 5}
 HIS = {2, 6, 9}
 FRS = {0, 1, 4}
 LIMITS = {3, 6, 7, 12, 15}
 G = 8
 CMAX = 128
 STOPEARLY = FALSE
INVARIANTS Bounds Fits FitsAlways Proportion NothingLeft
CHECK_DEADLOCK FALSE
