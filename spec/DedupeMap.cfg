SPECIFICATION DSpec
CONSTANTS
  TS = {t1, t2, t3}
  Free = free
  Ops = 4
  URLs = {1, 2}
  Kind = "map"
  Locked = FALSE
  Bits <- Own
SYMMETRY Threads
INVARIANTS Good Complete
CHECK_DEADLOCK FALSE
