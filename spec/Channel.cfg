CONSTANTS PROP = "@PROP@" TIER = "@TIER@" SEED = @SEED@
SPECIFICATION Spec
INVARIANTS Bounded Emit
VIEW view
CHECK_DEADLOCK FALSE
