SPECIFICATION DSpec
CONSTANTS
  MaxPat = 4
  MaxText = 3
  Alphabet <- QAlphabet
  Emit = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
