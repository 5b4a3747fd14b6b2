SPECIFICATION MSpec
INVARIANTS Once Good None
PROPERTY EventuallyAll
CONSTANTS Ids = {1, 2}
 MaxVer = 1
CHECK_DEADLOCK FALSE
