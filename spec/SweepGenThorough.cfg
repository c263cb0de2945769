SPECIFICATION SSpec
INVARIANTS Out Post Part Det Good
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 NK = 4
 Sizes = {0, 1, 3}
 Budgets = {0, 1, 2, 3, 4, 5, 7}
