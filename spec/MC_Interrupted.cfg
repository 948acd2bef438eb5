CONSTANTS Parts = 3 Products = {1, 2, 3} Depth = 4 Recording = FALSE Protocol = "mark-last"
SPECIFICATION ISpec
INVARIANTS NeverMixed OldOrNewOrNothing MarkVouches WholeWhenDone
PROPERTIES NeverBack
CHECK_DEADLOCK FALSE
