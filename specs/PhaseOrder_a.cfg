SPECIFICATION Spec
CONSTANTS N = 4
 COLOURS = {"n","b","r","g"}
 REDUCE = TRUE
 CHECKCYCLE = TRUE
 CYCLES = FALSE
INVARIANTS RefusedRight Optimal
CHECK_DEADLOCK FALSE
