CONSTANTS Pkgs <- PkgsL Dir <- DirL Order <- OrderL WsRoots <- WsL
 Names = {"", "X", "Y", "Z", "W"} MaxDev = 2 MaxDeps = 3 Vias = {"local", "git", "norev"} Addrs = {"a1", "a2", "a3"}
SPECIFICATION SimSpec
INVARIANTS Checked Emit
CHECK_DEADLOCK FALSE
