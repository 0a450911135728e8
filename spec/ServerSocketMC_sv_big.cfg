SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = 6
  Sock = "sv"
INVARIANTS OnceInOrder NothingQueuedWhenClosed Listening WaitsOnOpen Emit
CHECK_DEADLOCK FALSE
