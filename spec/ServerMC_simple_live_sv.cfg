SPECIFICATION FairClients
CONSTANTS
  Kind = "simple"
  Sock = "sv"
  NStops = 2
  NC = 1
  NReq = 1
  Modes = {"ok"}
  Variant = 0
PROPERTIES Quits Through
CHECK_DEADLOCK FALSE
