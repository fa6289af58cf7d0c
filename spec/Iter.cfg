CONSTANTS PROP = "@PROP@" TIER = "@TIER@" SEED = @SEED@
SPECIFICATION Spec
INVARIANTS TypeOk Complete Collected Emit
PROPERTIES Forward
CHECK_DEADLOCK FALSE
