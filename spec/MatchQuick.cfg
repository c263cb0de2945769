SPECIFICATION DSpec
CONSTANTS
  MaxPat = 3
  MaxText = 3
  Alphabet <- QAlphabet
  Emit = FALSE
INVARIANTS Facts
CHECK_DEADLOCK FALSE
