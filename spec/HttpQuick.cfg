SPECIFICATION DSpec
CONSTANTS
  N = 2
  Par = 2
  MaxT = 1
  Strat = "rfc"
  Reqs <- SReqs
  Resps <- SResps
  BreakPart = FALSE
  BreakVary = FALSE
  BreakMerge = FALSE
  BreakDrain = FALSE
INVARIANT Good
INVARIANT StoreSound
PROPERTY Finishes
CHECK_DEADLOCK FALSE
