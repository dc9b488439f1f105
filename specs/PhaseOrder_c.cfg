SPECIFICATION Spec
CONSTANTS N = 5
 COLOURS = {"n","b","r"}
 REDUCE = TRUE
 CHECKCYCLE = TRUE
 CYCLES = FALSE
INVARIANTS RefusedRight Optimal
CHECK_DEADLOCK FALSE
