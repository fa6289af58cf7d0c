CONSTANTS PROP = "@PROP@" TIER = "@TIER@" SEED = @SEED@
SPECIFICATION Spec
INVARIANTS BigStep Consumed Bounded Emit
PROPERTIES Final Announced
CHECK_DEADLOCK FALSE
