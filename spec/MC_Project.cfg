CONSTANTS Sites = {"s1"} Meas = {"m1", "m2"} Cfgs = {"c1"} KindsUsed = {"numpy", "both", "nodata"}
CONSTANTS ReaderLists <- RL MaxWhat = 3 Depth = 0 Recording = FALSE Rich = FALSE
SPECIFICATION PSpec
CONSTRAINT FewFolders
INVARIANTS TypeOK LoadExact
PROPERTIES LoadedFresh OwnAddressOnly CreateKeeps
CHECK_DEADLOCK FALSE
