SPECIFICATION Fair
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = 4
  Sock = "nb"
PROPERTIES AcceptEnds
CHECK_DEADLOCK FALSE
