CONSTANTS Sites = {"s1", "s10"} Meas = {"m1", "m2"} Cfgs = {"c1"} KindsUsed = {"numpy", "both", "nodata", "ascii", "user", "nometa", "badjson", "nofield", "wrongext", "empty"}
CONSTANTS ReaderLists <- RL MaxWhat = 9 Depth = 16 Recording = TRUE Rich = FALSE
SPECIFICATION PSpec
INVARIANTS TypeOK LoadExact
CONSTRAINTS Bound Emit
CHECK_DEADLOCK FALSE
