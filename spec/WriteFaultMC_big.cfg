SPECIFICATION Spec
CONSTANTS
  Stacks <- AllStacks
  MaxOps = 7
  MaxFault = 9
  Variant = 0
INVARIANTS Followed Reported Emit
CHECK_DEADLOCK FALSE
