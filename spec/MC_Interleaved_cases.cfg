CONSTANTS Steps = {1, 2} OneFolder = TRUE Protocol = "tolerant" Recording = TRUE
SPECIFICATION NSpec
INVARIANTS NobodyFails AsAlone Emit
PROPERTIES OwnOnly
CHECK_DEADLOCK FALSE
