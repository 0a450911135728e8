SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Represents OrderFree Emit
PROPERTY Frame
CONSTANTS
 Sub = "list"
 Depth = 4
 NX = 3
 Fault = ""
