SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
INVARIANTS OwnReplies
PROPERTIES AllAnswered

CONSTANTS
 NC = 2
 NCalls = 2
 Kinds = {"call", "oneway"}
 Srv = "simple"
 Fault = ""
 Keep = FALSE
