CONSTANTS Dirs = {1, 2, 3} Products = {1, 2} Depth = 0 Recording = FALSE Crashes = TRUE
SPECIFICATION SSpec
INVARIANTS NeverMixed NeverMixedUp ReadsLast EveryStepRecorded
CONSTRAINTS FewRecords
PROPERTIES TornUntilRewritten OnlyOwn RefusalKeeps WriteIsAtomicWhenDone
CHECK_DEADLOCK FALSE
