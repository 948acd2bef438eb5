CONSTANTS N = 6 Ks = {1, 2} Emitting = TRUE
SPECIFICATION RSpec
INVARIANTS AsSpecified OnceAtMost NoDataUnlessAsked ScaledOnlyIfAsked MetadataNotReadAgain
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
