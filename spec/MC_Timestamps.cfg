CONSTANTS W = 1 NL = 2 DaySeconds = 3 Ten = 4 Days = 2
SPECIFICATION TSpec
INVARIANTS Shape ReadBack Order Difference TextOrder
CHECK_DEADLOCK FALSE
