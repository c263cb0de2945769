SPECIFICATION DSpec
INVARIANTS Order Combinators Texts Fields Missing Sound
CHECK_DEADLOCK FALSE
CONSTANTS
 NE = 4
 Tags = {"aa", "bb"}
 Classes = {"", "x"}
