CONSTANTS N = 9 Ks = {1, 2, 3} Depth = 5 Recording = TRUE
SPECIFICATION VSpec
INVARIANTS TypeOK
CONSTRAINTS Bound Emit
CHECK_DEADLOCK FALSE
