SPECIFICATION DSpec
CONSTANTS
  TS = {t1, t2, t3}
  Free = free
  Ops = 3
  URLs = {1, 2, 3}
  Kind = "bloom"
  Locked = TRUE
  Bits <- Collide
SYMMETRY Threads
INVARIANTS Good Complete
CHECK_DEADLOCK FALSE
