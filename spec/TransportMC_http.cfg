SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Faithful Emit
CONSTANTS
 Kind = "http"
 MaxOps = 5
 Small = TRUE
