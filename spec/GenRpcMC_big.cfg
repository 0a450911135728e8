SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InSync Once Own Quiet Emit
CONSTANTS
 Depth = 3
 Deviation = "none"
