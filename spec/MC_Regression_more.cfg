CONSTANTS Values <- MoreValues ZValues <- SmallZ MaxWins = 2 Shapes <- AllShapes
SPECIFICATION SSpec
INVARIANTS Formula RealIsComplex TruthSolves OnlyTruth
PROPERTIES Narrows
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
