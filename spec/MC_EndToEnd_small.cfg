CONSTANTS Vals <- V2 ZVals <- Z3 N = 8 Late <- L2 MaxOps = 1 Slip = FALSE
SPECIFICATION ESpec
INVARIANTS Relation Found
CHECK_DEADLOCK FALSE
