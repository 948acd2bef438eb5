CONSTANTS Kinds = {"stack", "draw"} Lens = {10, 25, 60, 1440} Offsets = {0, 5, 12} Starts = {0, 3, 1435} Incs = {1, 5, 8} N = 6 MaxAngles = 4 MaxDraws = 4 Emitting = TRUE
SPECIFICATION FSpec
INVARIANTS SpansPartition StackIsSum Continued RowsOneChannel
PROPERTIES DrawnKept
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
