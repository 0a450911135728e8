SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OwnReplies Emit

CONSTANTS
 NC = 2
 NCalls = 2
 Kinds = {"call"}
 Srv = "nb"
 Fault = ""
 Keep = TRUE
