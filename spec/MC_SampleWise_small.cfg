CONSTANTS Vals <- V3 N = 3 Seconds <- One Depth = 2 Recording = FALSE
SPECIFICATION WSpec
INVARIANTS FillLaws Line MeanLaws
PROPERTIES UndesignatedKept Alone GapsKept
CHECK_DEADLOCK FALSE
