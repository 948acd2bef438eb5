CONSTANTS Vals <- V2 N = 6 Seconds <- Two Depth = 4 Recording = TRUE
SPECIFICATION WSpec
INVARIANTS FillLaws MeanLaws
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
