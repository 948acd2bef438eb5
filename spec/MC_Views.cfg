CONSTANTS N = 5 Ks = {1, 2} Depth = 0 Recording = FALSE
SPECIFICATION VSpec
INVARIANTS TypeOK Composition Whole
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
