SPECIFICATION DSpec
INVARIANTS Good
PROPERTIES Returns
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Pieces = 2
 Locked = TRUE
