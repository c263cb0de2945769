SPECIFICATION DSpec
CONSTANTS
  MaxRules = 2
  Pats <- QPats
  Paths <- QPaths
  Layouts <- TLayouts
  Emit = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
