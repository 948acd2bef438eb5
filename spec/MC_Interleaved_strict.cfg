CONSTANTS Steps = {1, 2} OneFolder = TRUE Protocol = "strict" Recording = FALSE
SPECIFICATION NSpec
INVARIANTS NobodyFails AsAlone 
PROPERTIES OwnOnly
CHECK_DEADLOCK FALSE
