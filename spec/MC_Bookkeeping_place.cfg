CONSTANTS Moving = {2} NRec = 2 NNames = 3 AmpChans = {"o1", "in"} MaxAmp = 1 Depth = 0 Emitting = FALSE ByPlace = TRUE
SPECIFICATION BSpec
INVARIANTS SameUpToAmplification ExponentsOfSolution MadeOfWhatIsHere
CHECK_DEADLOCK FALSE
