SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxOps = 5
  Sock = "nb"
INVARIANTS OnceInOrder NothingQueuedWhenClosed Listening WaitsOnOpen Emit
CHECK_DEADLOCK FALSE
