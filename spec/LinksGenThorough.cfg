SPECIFICATION DSpec
INVARIANTS Out
CHECK_DEADLOCK FALSE
CONSTANTS
 Deep = TRUE
 Emit = TRUE
