SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Faithful Emit
CONSTANTS
 Kind = "framed"
 MaxOps = 7
 Small = TRUE
