CONSTANTS MaxN = 6 Sizes = {2, 4} Ks = {1, 2} MaxR = 4 Pair = TRUE
SPECIFICATION SSpec
INVARIANTS Formula Contents NoGaps SameTime SameWindows
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
