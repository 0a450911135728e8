SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OwnReplies

CONSTANTS
 NC = 3
 NCalls = 2
 Kinds = {"call", "oneway"}
 Srv = "nb"
 Fault = ""
 Keep = FALSE
