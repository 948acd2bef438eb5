CONSTANTS Builtin = {"B", "C", "L"} UserNames = {"U", "V"} MaxVersion = 3 MaxParts = 3 MaxObjs = 12 Params = {0} Depth = 18 Recording = TRUE
SPECIFICATION Busy
INVARIANTS RoundTrip
CONSTRAINTS Bound Emit
CHECK_DEADLOCK FALSE
