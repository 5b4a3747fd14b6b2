SPECIFICATION SSpec
INVARIANT EmitScript
CONSTANTS Ids = {1}
 MaxVer = 1
CHECK_DEADLOCK FALSE
