SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Typed Settled TextTrip Narrow DoubleTrip Truth Emit
CONSTANTS
 Depth = 2
 Fault = "inverted"
