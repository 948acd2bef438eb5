CONSTANTS Names = {"Ex", "Hy", "Hx"} MaxObjs = 2 MaxChans = 2 Tokens = {8, 9} Depth = 3 Recording = FALSE Shapes <- S2
SPECIFICATION QSpec
INVARIANTS ShareOut Agree Differ
PROPERTIES OnlyThere
CHECK_DEADLOCK FALSE
