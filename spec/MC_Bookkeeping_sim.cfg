CONSTANTS Moving = {1, 2} NRec = 2 NNames = 9 AmpChans = {"o1", "o2", "in", "x"} MaxAmp = 3 Depth = 16 Emitting = TRUE ByPlace = FALSE
SPECIFICATION RichSpec
INVARIANTS SameUpToAmplification MadeOfWhatIsHere
CONSTRAINTS Bound Emit
CHECK_DEADLOCK FALSE
