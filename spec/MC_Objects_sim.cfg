CONSTANTS MaxObjs = 40 MaxFiles = 4 Depth = 14 Recording = TRUE Sharing = FALSE Deep = FALSE
SPECIFICATION SSpec
INVARIANTS MemoryFaithful ContributorsKept
CONSTRAINTS Bound Emit
CHECK_DEADLOCK FALSE
