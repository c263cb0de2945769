SPECIFICATION DSpec
CONSTANTS
  MaxSegs = 2
  Auths <- QAuths
  Segments <- QSegments
  Queries <- QQueries
  Emit = FALSE
INVARIANTS IsNormal Idempotent Same
CHECK_DEADLOCK FALSE
