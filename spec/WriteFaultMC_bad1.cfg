SPECIFICATION Spec
CONSTANTS
  Stacks <- AllStacks
  MaxOps = 5
  MaxFault = 6
  Variant = 1
INVARIANTS Followed Reported Emit
CHECK_DEADLOCK FALSE
