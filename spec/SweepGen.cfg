SPECIFICATION SSpec
INVARIANTS Out Post Part Det Good
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 NK = 3
 Sizes = {0, 1, 2, 5}
 Budgets = {0, 1, 2, 3, 4, 6}
