CONSTANTS Cuts <- SomeCuts Orders = {2, 4, 10} Tones <- SomeTones Depth = 1 Recording = FALSE
SPECIFICATION FSpec
INVARIANTS InRange Laws Shape
PROPERTIES NeverMore
CHECK_DEADLOCK FALSE
