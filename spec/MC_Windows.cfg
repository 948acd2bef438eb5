CONSTANTS MaxN = 9 Sizes = {2, 3, 5} Ks = {1, 2, 3} MaxR = 6 Pair = FALSE
SPECIFICATION SSpec
INVARIANTS Formula Contents NoGaps SameTime SameWindows
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
