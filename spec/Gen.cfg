CONSTANTS PROP = "@PROP@" TIER = "@TIER@" SEED = @SEED@
SPECIFICATION Spec
VIEW view
INVARIANTS Within DerIsBer Agree RoundTrip Emit
PROPERTIES VerdictStable Announced
CHECK_DEADLOCK FALSE
