CONSTANTS Vals <- V2 ZVals <- Z3 N = 8 Late <- L2 MaxOps = 2 Slip = TRUE
SPECIFICATION ESpec
INVARIANTS Relation Found
CHECK_DEADLOCK FALSE
