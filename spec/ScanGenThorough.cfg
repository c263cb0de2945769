SPECIFICATION DSpec
INVARIANTS Out
CHECK_DEADLOCK FALSE
CONSTANTS
 NE = 4
 Tags = {"aa", "bb"}
 Classes = {"", "x"}
