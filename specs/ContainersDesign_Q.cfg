SPECIFICATION QSpec
INVARIANTS QueueOk HeapOk SetsOk
CHECK_DEADLOCK FALSE
CONSTANTS
  CAP = 3
  KEYS = {0, 1}
  ELEMS = {0}
  STEPS = 12
