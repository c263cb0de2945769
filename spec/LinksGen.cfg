SPECIFICATION DSpec
INVARIANTS Out
CHECK_DEADLOCK FALSE
CONSTANTS
 Deep = FALSE
 Emit = TRUE
