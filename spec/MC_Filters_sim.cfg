CONSTANTS Cuts <- SomeCuts Orders = {2, 4, 7, 10} Tones = {0, 500, 6300} Depth = 3 Recording = TRUE
SPECIFICATION FSpec
INVARIANTS InRange
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
