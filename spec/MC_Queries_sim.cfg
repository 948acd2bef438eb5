CONSTANTS Sites = {"s1", "s10", "a b"} Names = {"m1", "time"} NFs = 3 MaxT = 6 Depth = 18 Recording = TRUE
SPECIFICATION Busy
CONSTRAINTS Bound Emit
INVARIANTS Unique
CHECK_DEADLOCK FALSE
