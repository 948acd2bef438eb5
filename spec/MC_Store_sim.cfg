CONSTANTS Dirs = {1, 2, 3} Products = {1, 2, 3} Depth = 7 Recording = TRUE Crashes = TRUE
SPECIFICATION SSpec
INVARIANTS NeverMixed NeverMixedUp ReadsLast
CONSTRAINTS Bound Emit
CHECK_DEADLOCK FALSE
