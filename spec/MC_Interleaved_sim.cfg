CONSTANTS Steps = {1, 2, 3} OneFolder = TRUE Protocol = "tolerant" Recording = TRUE
SPECIFICATION NSpec
INVARIANTS NobodyFails AsAlone Emit
CHECK_DEADLOCK FALSE
