SPECIFICATION Spec
INVARIANTS Converges Sound Isolated
PROPERTY KeepsGoing
CONSTANTS Pkgs = {"a", "b", "c"}
 Folder <- F
 Folders = {1, 2}
 Mods = {"absent", "own"}
 MaxDeps = 1
 MaxSteps = 0
CHECK_DEADLOCK FALSE
