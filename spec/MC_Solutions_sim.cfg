CONSTANTS Sites = {"s1", "s2"} Cfgs = {"c1", "c2"} Fss = {"16", "64"} Tfs <- PlainMore Posts = {"-", "rr", "", "default"} MaxSol = 8 Depth = 8 Recording = TRUE
SPECIFICATION SSpec
INVARIANTS FoundAgain
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
