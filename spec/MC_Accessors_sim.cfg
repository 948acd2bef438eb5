CONSTANTS Names = {"Ex", "Hy", "Hx", "Ey"} MaxObjs = 3 MaxChans = 4 Tokens = {7, 8, 9} Depth = 10 Recording = TRUE Shapes <- S1
SPECIFICATION QSpec
INVARIANTS ShareOut
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
