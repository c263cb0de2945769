SPECIFICATION DSpec
CONSTANTS
  MaxPat = 5
  MaxText = 4
  Alphabet <- QAlphabet
  Emit = FALSE
INVARIANTS Facts
CHECK_DEADLOCK FALSE
