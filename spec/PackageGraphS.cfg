CONSTANTS Pkgs <- PkgsS Dir <- DirS Order <- OrderS WsRoots <- WsS
 Names = {"", "X"} MaxDev = 0 MaxDeps = 1 Vias = {"local", "git"} Addrs = {}
SPECIFICATION Spec
INVARIANTS Checked Emit
CHECK_DEADLOCK FALSE
