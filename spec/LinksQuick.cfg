SPECIFICATION DSpec
INVARIANTS RoundTrip Absolute Inherits Clean OneLink
CHECK_DEADLOCK FALSE
CONSTANTS
 Deep = FALSE
 Emit = FALSE
