CONSTANTS Fs = 576 Freqs = {1, 3, 18, 36, 150} MaxSamples = 40 NLevels = 2 Per = 2
SPECIFICATION SSpec
INVARIANTS FactorsAgree Resolvable Divides Products OnGrid LengthsAgree
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
