CONSTANTS Parts = 1 Products = {1, 2} Depth = 3 Recording = TRUE Protocol = "mark-last"
SPECIFICATION ISpec
INVARIANTS NeverMixed OldOrNewOrNothing MarkVouches WholeWhenDone Emit
CHECK_DEADLOCK FALSE
