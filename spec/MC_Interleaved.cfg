CONSTANTS Steps = {1, 2, 3, 4} OneFolder = TRUE Protocol = "tolerant" Recording = FALSE
SPECIFICATION NSpec
INVARIANTS NobodyFails AsAlone 
PROPERTIES OwnOnly
CHECK_DEADLOCK FALSE
