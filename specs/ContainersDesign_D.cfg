SPECIFICATION DSpec
INVARIANTS QueueOk HeapOk SetsOk
CHECK_DEADLOCK FALSE
CONSTANTS
  CAP = 1
  KEYS = {0}
  ELEMS = {0, 1, 2, 3, 4}
  STEPS = 11
