SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Stable Versioned Ordered AnyOrder FreshIsSilent Replaced Emit
CONSTANTS
 Depth = 1
 Deviation = "zero"
