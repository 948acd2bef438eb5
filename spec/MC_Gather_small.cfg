CONSTANTS MaxOffset = 2 MaxN = 2 MaxMeas = 2
SPECIFICATION SSpec
INVARIANTS Formula Attribution NothingMissing
PROPERTIES Grows
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
