CONSTANTS MaxN = 4 MaxK = 3
SPECIFICATION SSpec
INVARIANTS RoundTrip SelectsInterval Bounded
PROPERTIES StartStable
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
