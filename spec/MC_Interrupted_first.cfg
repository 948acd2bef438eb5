CONSTANTS Parts = 1 Products = {1, 2} Depth = 3 Recording = FALSE Protocol = "mark-first"
SPECIFICATION ISpec
INVARIANTS NeverMixed OldOrNewOrNothing MarkVouches WholeWhenDone
CHECK_DEADLOCK FALSE
