CONSTANTS Ns = {300, 401, 720} Ratios <- R1 Factors = {1, 2, 3, 4, 5, 6} Ks = {2, 5} Depth = 3 Recording = TRUE
SPECIFICATION ASpec
INVARIANTS Ordered
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
