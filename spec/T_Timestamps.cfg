CONSTANTS W = 6 NL = 4 DaySeconds = 86400 Ten = 10
CONSTANTS InitSt <- XInit Apply <- XApply Check <- XCheck
SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
