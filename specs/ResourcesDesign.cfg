SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Amounts = {1, 2, 3}
  Limit = 4
  Rollback = FALSE
INVARIANTS WithinLimit Exact Fair
CHECK_DEADLOCK FALSE
