CONSTANTS MaxT = 3 MaxS = 2 MaxReaders = 3 Recording = FALSE
SPECIFICATION PSpec
INVARIANTS InOrder OnceEach Whole StoredOnlyWhole NothingAfterFault RightReader FailsOnlyWhen
PROPERTIES Ends
CHECK_DEADLOCK FALSE
