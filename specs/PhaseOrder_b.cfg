SPECIFICATION Spec
CONSTANTS N = 3
 COLOURS = {"n","b","r","g","bg"}
 REDUCE = TRUE
 CHECKCYCLE = TRUE
 CYCLES = TRUE
INVARIANTS RefusedRight Optimal
CHECK_DEADLOCK FALSE
