SPECIFICATION Spec
VIEW view
CONSTANTS
  Kind = "simple"
  Sock = "sv"
  NStops = 2
  NC = 2
  NReq = 2
  Modes = {"ok", "terr"}
  Variant = 0
INVARIANTS Followed Released Unserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
