CONSTANTS Sites = {"s1", "s2"} Cfgs = {"c1"} Fss = {"16", "64"} Tfs <- Plain Posts = {"-", "rr"} MaxSol = 3 Depth = 0 Recording = FALSE
SPECIFICATION SSpec
INVARIANTS FoundAgain
PROPERTIES LastWins OneAtATime
CHECK_DEADLOCK FALSE
