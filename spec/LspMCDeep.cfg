SPECIFICATION MSpec
INVARIANTS Once Good None
PROPERTY EventuallyAll
CONSTANTS Ids = {1, 2}
 MaxVer = 2
CHECK_DEADLOCK FALSE
