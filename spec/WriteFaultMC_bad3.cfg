SPECIFICATION Spec
CONSTANTS
  Stacks <- AllStacks
  MaxOps = 5
  MaxFault = 6
  Variant = 3
INVARIANTS Followed Reported Emit
CHECK_DEADLOCK FALSE
