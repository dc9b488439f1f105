SPECIFICATION HSpec
INVARIANTS QueueOk HeapOk SetsOk
CHECK_DEADLOCK FALSE
CONSTANTS
  CAP = 5
  KEYS = {0, 1, 2}
  ELEMS = {0}
  STEPS = 9
