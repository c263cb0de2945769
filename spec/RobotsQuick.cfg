SPECIFICATION DSpec
CONSTANTS
  MaxRules = 2
  Pats <- FewPats
  Paths <- QPaths
  Layouts <- TLayouts
  Emit = FALSE
INVARIANTS Facts
CHECK_DEADLOCK FALSE
