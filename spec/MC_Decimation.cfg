CONSTANTS Fs = 576 Freqs = {1, 2, 4, 9, 18, 36, 144, 150, 288} MaxSamples = 40 NLevels = 3 Per = 1
SPECIFICATION SSpec
INVARIANTS FactorsAgree Resolvable Divides Products OnGrid LengthsAgree
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
