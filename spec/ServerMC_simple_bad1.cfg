SPECIFICATION FairClients
VIEW view
CONSTANTS
  Kind = "simple"
  Sock = "sv"
  NStops = 1
  NC = 1
  NReq = 1
  Modes = {"ok"}
  Variant = 1
INVARIANTS Followed Released Unserved
ACTION_CONSTRAINT Emit
PROPERTIES Quits
CHECK_DEADLOCK FALSE
