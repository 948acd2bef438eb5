CONSTANTS Vals <- V2 ZVals <- Z3 N = 9 Late <- L2 MaxOps = 2 Slip = FALSE
SPECIFICATION ESpec
INVARIANTS Relation Found
CHECK_DEADLOCK FALSE
