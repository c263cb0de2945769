SPECIFICATION DSpec
CONSTANTS
  N = 2
  Max = 2
  MinB = 1
  MaxB = 3
  Outcomes <- QOutcomes
  Step0 = 1
  MaxT = 100
  Drains = TRUE
INVARIANT Good
PROPERTY Finishes
CHECK_DEADLOCK FALSE
