CONSTANTS MaxObjs = 5 MaxFiles = 2 Depth = 0 Recording = FALSE Sharing = FALSE Deep = FALSE
SPECIFICATION SSpec
INVARIANTS MemoryFaithful Ordered ContributorsKept
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
