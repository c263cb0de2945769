SPECIFICATION DSpec
CONSTANTS
  N = 3
  Par = 1
  MaxT = 2
  Strat = "agg"
  Reqs <- QReqs
  Resps <- QResps
  BreakPart = FALSE
  BreakVary = FALSE
  BreakMerge = FALSE
  BreakDrain = FALSE
INVARIANT Good
INVARIANT StoreSound

CHECK_DEADLOCK FALSE
