SPECIFICATION Spec
VIEW view
CONSTANTS
  Kind = "nb"
  Sock = "nb"
  NStops = 0
  NC = 2
  NReq = 2
  Modes = {"ok", "dec"}
  Variant = 0
INVARIANTS Followed Released Unserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
