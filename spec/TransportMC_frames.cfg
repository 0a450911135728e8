SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Faithful Emit
CONSTANTS
 Kind = "frames"
 MaxOps = 3
 Small = TRUE
