CONSTANTS PROP = "@PROP@" TIER = "@TIER@" SEED = @SEED@
SPECIFICATION Spec
INVARIANTS InBuffer Emit
PROPERTIES Permanent Partition Adjacent
CHECK_DEADLOCK FALSE
