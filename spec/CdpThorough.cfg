SPECIFICATION DSpec
CONSTANTS
  N = 3
  Cap = 1
  MaxTabs = 9
  Faults = 1
INVARIANTS Good Exclusive
PROPERTY Finishes
CHECK_DEADLOCK FALSE
