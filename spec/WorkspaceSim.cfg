SPECIFICATION SSpec
INVARIANT EmitLog
CONSTANTS Pkgs = {"a", "b", "c"}
 Folder <- F
 Folders = {1, 2}
 Mods = {"absent", "own", "other"}
 MaxDeps = 3
 MaxSteps = 12
CHECK_DEADLOCK FALSE
