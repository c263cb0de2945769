SPECIFICATION DSpec
CONSTANTS
  N = 3
  Covers <- AllCovers
  Delays <- QDelays
  Rate = 1
  MaxT = 30
  Spacing = TRUE
INVARIANTS Good Fair
PROPERTY Finishes
CHECK_DEADLOCK FALSE
