SPECIFICATION DSpec
CONSTANTS
  MaxRules = 2
  Pats <- FewPats
  Paths <- QPaths
  Layouts <- QLayouts
  Emit = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
