SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
PROPERTIES Comes
CONSTANTS
 Depth = 2
 Deviation = "none"
