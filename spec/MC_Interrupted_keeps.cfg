CONSTANTS Parts = 1 Products = {1, 2} Depth = 3 Recording = FALSE Protocol = "keeps-mark"
SPECIFICATION ISpec
INVARIANTS NeverMixed OldOrNewOrNothing MarkVouches WholeWhenDone
CHECK_DEADLOCK FALSE
