SPECIFICATION TSpec
INVARIANT Report
CONSTANTS Ids = {1}
 MaxVer = 1
CHECK_DEADLOCK FALSE
