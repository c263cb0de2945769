SPECIFICATION Spec
INVARIANTS Legal Out
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxKinds = 1
 Cuts = FALSE
