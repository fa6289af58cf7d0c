CONSTANTS PROP = "@PROP@" TIER = "@TIER@" SEED = @SEED@
SPECIFICATION Spec
INVARIANTS Prefix Meaning Emit
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
