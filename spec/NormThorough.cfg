SPECIFICATION DSpec
CONSTANTS
  MaxSegs = 4
  Auths <- QAuths
  Segments <- FewSegments
  Queries <- QQueries
  Emit = FALSE
INVARIANTS IsNormal Idempotent Same
CHECK_DEADLOCK FALSE
