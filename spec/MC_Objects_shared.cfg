CONSTANTS MaxObjs = 5 MaxFiles = 2 Depth = 0 Recording = FALSE Sharing = TRUE Deep = FALSE
SPECIFICATION SSpec
INVARIANTS MemoryFaithful Ordered ContributorsKept
CHECK_DEADLOCK FALSE
