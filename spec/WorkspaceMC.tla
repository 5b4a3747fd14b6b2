---------------------------- MODULE WorkspaceMC ----------------------------
EXTENDS Workspace
F == "a" :> 1 @@ "b" :> 1 @@ "c" :> 2
F2 == "a" :> 1 @@ "b" :> 2
============================================================================
