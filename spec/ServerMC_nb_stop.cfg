SPECIFICATION Spec
VIEW view
CONSTANTS
  Kind = "nb"
  Sock = "nb"
  NStops = 2
  NC = 1
  NReq = 2
  Modes = {"ok"}
  Variant = 0
INVARIANTS Followed Released Unserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
