CONSTANTS Builtin = {"B"} UserNames = {"U"} MaxVersion = 2 MaxParts = 2 MaxObjs = 3 Params = {1} Depth = 0 Recording = FALSE
SPECIFICATION RSpec
INVARIANTS RoundTrip NamesSurvive
PROPERTIES DictsKept
CHECK_DEADLOCK FALSE
