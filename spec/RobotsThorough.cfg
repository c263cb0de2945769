SPECIFICATION DSpec
CONSTANTS
  MaxRules = 2
  Pats <- TPats
  Paths <- QPaths
  Layouts <- TLayouts
  Emit = FALSE
INVARIANTS Facts
CHECK_DEADLOCK FALSE
