CONSTANTS Steps = {1, 2} OneFolder = FALSE Protocol = "scratch" Recording = FALSE
SPECIFICATION NSpec
INVARIANTS NobodyFails AsAlone 
PROPERTIES OwnOnly
CHECK_DEADLOCK FALSE
