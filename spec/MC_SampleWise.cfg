CONSTANTS Vals <- V3 N = 4 Seconds <- Three Depth = 2 Recording = FALSE
SPECIFICATION WSpec
INVARIANTS FillLaws Line MeanLaws
PROPERTIES UndesignatedKept Alone GapsKept
CHECK_DEADLOCK FALSE
