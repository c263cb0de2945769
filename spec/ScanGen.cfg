SPECIFICATION DSpec
INVARIANTS Out
CHECK_DEADLOCK FALSE
CONSTANTS
 NE = 3
 Tags = {"aa", "bb"}
 Classes = {"", "x"}
