SPECIFICATION SSpec
INVARIANTS Post Part Det Good
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 NK = 3
 Sizes = {0, 1, 3, 6}
 Budgets = {0, 1, 2, 3, 4, 5, 7}
