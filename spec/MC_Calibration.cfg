CONSTANTS Chans = {1, 2} Readers = 3
SPECIFICATION SSpec
INVARIANTS Right NoMore Agrees
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
