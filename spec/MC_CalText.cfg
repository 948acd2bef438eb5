CONSTANTS MaxLines = 5 Freqs = {1, 2, 3, 4, 5}
SPECIFICATION SSpec
INVARIANTS Increasing SameLines Formula
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
