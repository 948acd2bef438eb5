CONSTANTS Sites = {"s1", "s10"} Meas = {"m1", "m2"} Cfgs = {"c1", "c"} KindsUsed = {"numpy", "both", "ascii"}
CONSTANTS ReaderLists <- RL MaxWhat = 9 Depth = 16 Recording = TRUE Rich = TRUE
SPECIFICATION RichSpec
INVARIANTS TypeOK LoadExact
CONSTRAINTS Bound Emit
CHECK_DEADLOCK FALSE
