CONSTANTS Sites = {"s1", "s2"} Names = {"m1", "m2"} NFs = 2 MaxT = 1 Depth = 4 Recording = FALSE
SPECIFICATION QSpec
CONSTRAINT Bound
INVARIANTS Laws Unique
CHECK_DEADLOCK FALSE
