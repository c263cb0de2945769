SPECIFICATION DSpec
CONSTANTS
  N = 1
  Max = 5
  MinB = 2
  MaxB = 6
  Outcomes <- QOutcomes
  Step0 = 1
  MaxT = 100
  Drains = TRUE
INVARIANT Good
PROPERTY Finishes
CHECK_DEADLOCK FALSE
