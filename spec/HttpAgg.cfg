SPECIFICATION DSpec
CONSTANTS
  N = 2
  Par = 1
  MaxT = 2
  Strat = "agg"
  Reqs <- QReqs
  Resps <- QResps
  BreakPart = FALSE
  BreakVary = FALSE
  BreakMerge = FALSE
  BreakDrain = FALSE
INVARIANT Good
INVARIANT StoreSound
PROPERTY Finishes
CHECK_DEADLOCK FALSE
