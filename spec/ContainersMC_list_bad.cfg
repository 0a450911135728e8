SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Represents OrderFree Emit
PROPERTY Frame
CONSTANTS
 Sub = "list"
 Depth = 3
 NX = 2
 Fault = "off"
