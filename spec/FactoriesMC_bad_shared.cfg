SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Own Wired Sides Emit
CONSTANTS
 MaxOps = 6
 Fault = "shared"
