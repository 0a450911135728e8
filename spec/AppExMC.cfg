SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ReadsBack NoPrefixReads Emit
CONSTANTS
 MaxFields = 3
 Labels = {"m1", "m0", "k1", "k2", "xm", "xb", "xk", "xs", "e3", "es", "el", "em", "eb", "e0"}
 ByIdOnly = FALSE
