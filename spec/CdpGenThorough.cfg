SPECIFICATION Spec
INVARIANTS Legal Out
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxKinds = 2
 Cuts = TRUE
