CONSTANTS MaxT = 3 MaxS = 2 MaxReaders = 2 Recording = TRUE
SPECIFICATION PSpec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
