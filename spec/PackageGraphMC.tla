-------------------------- MODULE PackageGraphMC --------------------------
EXTENDS PackageGraph
\* small and exhaustive
PkgsS == {"a", "b", "g"}
DirS == [a |-> <<"w", "a">>, b |-> <<"w", "a", "b">>, g |-> <<"home", ".move", "g_git_main">>]
OrderS == <<"g", "a", "b">>
WsS == <<<<"w">>>>
\* large, for simulation: two workspace folders, nesting, packages inside source folders, a git cache
PkgsL == {"a", "b", "c", "n", "m", "f", "g", "h"}
DirL == [a |-> <<"w", "a">>, b |-> <<"w", "b">>, c |-> <<"v", "c">>, n |-> <<"w", "a", "n">>, m |-> <<"w", "a", "sources", "m">>,
         f |-> <<"w", "aptos-move", "framework", "f">>, g |-> <<"home", ".move", "g_git_main">>, h |-> <<"home", ".move", "h_git_main", "sub">>]
OrderL == <<"g", "h", "c", "a", "n", "m", "f", "b">>
WsL == <<<<"w">>, <<"v">>, <<"w", "a">>>>
\* one random edit per step, weighted towards dependencies
R(S) == RandomElement(S)
SimNext ==
  /\ UNCHANGED aptos
  /\ \E p \in {R(Pkgs)}, k \in {R(1..12)} :
     IF fs[p].st # "ok" THEN fs' = [fs EXCEPT ![p] = [NoManifest EXCEPT !.st = "ok", !.name = R(Names)]]
     ELSE CASE k = 1 -> Break(p)
          [] k = 2 -> Delete(p)
          [] k = 3 /\ Addrs \ fs[p].addrs # {} -> AddAddr(p, R(Addrs \ fs[p].addrs))
          [] k \in 4..9 /\ Len(fs[p].deps) < MaxDeps -> AddDep(p, R(Dep))
          [] k \in 10..12 /\ Len(fs[p].dev) < MaxDev -> AddDev(p, R(Dep))
          [] OTHER -> fs' = [fs EXCEPT ![p] = [NoManifest EXCEPT !.st = "ok", !.name = R(Names)]]
SimSpec == Init /\ [][SimNext]_vars
============================================================================
