SPECIFICATION DSpec
CONSTANTS
  N = 4
  Covers <- TwoCovers
  Delays <- QDelays
  Rate = 2
  MaxT = 30
  Spacing = TRUE
INVARIANTS Good Fair
PROPERTY Finishes
CHECK_DEADLOCK FALSE
