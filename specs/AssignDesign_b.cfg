SPECIFICATION Spec
CONSTANTS USERS = {1, 2}
 DS = {3}
 PHASES = {1, 2}
 LOS = {0, 3}
 HIS = {3, 7}
 FRS = {0, 1, 3}
 LIMITS = {2, 5, 8, 11}
 G = 8
 CMAX = 128
 STOPEARLY = FALSE
INVARIANTS Bounds Fits FitsAlways Proportion NothingLeft
CHECK_DEADLOCK FALSE
