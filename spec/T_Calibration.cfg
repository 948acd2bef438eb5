CONSTANTS InitSt <- XInit Apply <- XApply Check <- XCheck
SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
