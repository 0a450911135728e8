SPECIFICATION Fair
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = 4
  Sock = "sv"
PROPERTIES AcceptEnds
CHECK_DEADLOCK FALSE
