SPECIFICATION DSpec
CONSTANTS
  MaxPat = 5
  MaxText = 3
  Alphabet <- QAlphabet
  Emit = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
