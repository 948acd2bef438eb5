CONSTANTS Values = {0, 1, 5, 9} Kinds = {"none", "constant", "linear"}
SPECIFICATION SSpec
INVARIANTS Linear Scales Energy Removed RealEnds
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
