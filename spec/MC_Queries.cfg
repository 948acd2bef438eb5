CONSTANTS Sites = {"s1", "s2", "s3"} Names = {"m1"} NFs = 1 MaxT = 3 Depth = 3 Recording = FALSE
SPECIFICATION QSpec
CONSTRAINT Bound
INVARIANTS Laws Unique
CHECK_DEADLOCK FALSE
