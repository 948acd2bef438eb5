CONSTANTS Ns = {7, 64, 100, 243} Ratios <- R1 Factors = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 24, 25, 27, 30} Ks = {2, 3, 5} Depth = 3 Recording = FALSE
SPECIFICATION ASpec
INVARIANTS Ordered ByParts
PROPERTIES Inside Complete Between
CHECK_DEADLOCK FALSE
