SPECIFICATION Spec
INVARIANTS Converges Sound Isolated
PROPERTY KeepsGoing
CONSTANTS Pkgs = {"a", "b"}
 Folder <- F2
 Folders = {1, 2}
 Mods = {"absent", "own", "other"}
 MaxDeps = 2
 MaxSteps = 0
CHECK_DEADLOCK FALSE
