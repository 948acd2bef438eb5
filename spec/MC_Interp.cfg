CONSTANTS Vals <- MVals Gaps = {1, 2, 3} MaxBins = 4
SPECIFICATION SSpec
INVARIANTS OnBins HeldEnds Between Straight
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
