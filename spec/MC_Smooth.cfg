CONSTANTS MaxFreqs = 20 Props <- MProps
SPECIFICATION SSpec
INVARIANTS OddPoints SumOne Symmetric Local
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
