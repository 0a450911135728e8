SPECIFICATION Spec
VIEW view
CONSTANTS
  Kind = "nb"
  Sock = "sv"
  NStops = 1
  NC = 2
  NReq = 1
  Modes = {"ok", "err"}
  Variant = 0
INVARIANTS Followed Released Unserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
