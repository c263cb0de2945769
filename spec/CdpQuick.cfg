SPECIFICATION DSpec
CONSTANTS
  N = 2
  Cap = 1
  MaxTabs = 9
  Faults = 2
INVARIANTS Good Exclusive
PROPERTY Finishes
CHECK_DEADLOCK FALSE
