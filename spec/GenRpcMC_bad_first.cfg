SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InSync Once Own Quiet Emit
CONSTANTS
 Depth = 2
 Deviation = "first"
