SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoneIsNone KindKept MessageKept Typed EndKnown Emit
CONSTANTS
 Depth = 6
 Fault = ""
