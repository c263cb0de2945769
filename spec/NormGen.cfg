SPECIFICATION DSpec
CONSTANTS
  MaxSegs = 2
  Auths <- QAuths
  Segments <- QSegments
  Queries <- QQueries
  Emit = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
