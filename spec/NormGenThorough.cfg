SPECIFICATION DSpec
CONSTANTS
  MaxSegs = 4
  Auths <- QAuths
  Segments <- FewSegments
  Queries <- QQueries
  Emit = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
