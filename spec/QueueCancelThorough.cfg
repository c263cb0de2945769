SPECIFICATION DSpec
CONSTANTS
  TS = {t1, t2, t3}
  Ops = 4
  Cs = {TRUE, FALSE}
  CountsDone = TRUE
SYMMETRY Threads
INVARIANTS Good QuietOK Accounting
CHECK_DEADLOCK FALSE
