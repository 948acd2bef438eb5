CONSTANTS Cuts <- FewCuts Orders = {4} Tones <- SomeTones Depth = 2 Recording = FALSE
SPECIFICATION FSpec
INVARIANTS InRange Commute
PROPERTIES NeverMore
CHECK_DEADLOCK FALSE
